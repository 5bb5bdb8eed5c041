package main

// Reference model: an independent, reflect-only description of the
// documented encoding under every option. It shares no code with the
// library and uses none of its internals.

import (
	"bytes"
	"context"
	"encoding"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode"
	"unicode/utf8"
)

type durFmt int

const (
	dfString durFmt = iota
	dfMinutes
	dfSeconds
	dfMillis
	dfMicros
	dfNanos
)

// optSet is the model's view of a set of options.
type optSet struct {
	ctx        context.Context
	layout     string
	dur        durFmt
	unix       bool
	unsorted   bool
	rawBytes   bool
	arrString  bool
	nilMap     bool
	nilSlice   bool
	noStrEsc   bool
	noHTML     bool
	noUTF8     bool
	noCompact  bool
	noNumValid bool
	hasAllow   bool
	hasDeny    bool
	allow      []string
	deny       []string

	rawLineSep bool // variant: fragments keep U+2028/9 as they are
	depth      int
	perm       uint64 // order of the options
}

func defaultOpts() *optSet {
	return &optSet{ctx: context.TODO(), layout: time.RFC3339Nano, dur: dfNanos}
}

type errKind int

const (
	ekNone errKind = iota
	ekUnsupType
	ekUnsupValue
	ekMarshaler
	ekNumber
	ekYear
	ekSyncKey
	ekPanic
)

func (k errKind) String() string {
	return [...]string{"none", "UnsupportedType", "UnsupportedValue", "Marshaler", "Number", "Year", "SyncMapKey", "panic"}[k]
}

type refErr struct {
	kind  errKind
	typ   reflect.Type
	cause error
}

func (e *refErr) Error() string { return fmt.Sprintf("ref: %v %v %v", e.kind, e.typ, e.cause) }

type (
	appendMarshaler    interface{ AppendJSON([]byte) ([]byte, error) }
	appendMarshalerCtx interface {
		AppendJSONContext(context.Context, []byte) ([]byte, error)
	}
)

var (
	tTime     = reflect.TypeOf(time.Time{})
	tDur      = reflect.TypeOf(time.Duration(0))
	tSyncMap  = reflect.TypeOf((*sync.Map)(nil)).Elem()
	tNumber   = reflect.TypeOf(json.Number(""))
	tRaw      = reflect.TypeOf(json.RawMessage(nil))
	tJSONM    = reflect.TypeOf((*json.Marshaler)(nil)).Elem()
	tTextM    = reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()
	tAppM     = reflect.TypeOf((*appendMarshaler)(nil)).Elem()
	tAppCtxM  = reflect.TypeOf((*appendMarshalerCtx)(nil)).Elem()
	tEface    = reflect.TypeOf((*interface{})(nil)).Elem()
	refMaxRec = 4000
)

// refMarshal returns the expected encoding of v.
func refMarshal(v interface{}, o *optSet) ([]byte, *refErr) {
	if v == nil {
		return []byte("null"), nil
	}
	c := *o
	c.depth = 0
	return refValue(nil, reflect.ValueOf(v), &c, false)
}

func refValue(dst []byte, v reflect.Value, o *optSet, quoted bool) ([]byte, *refErr) {
	o.depth++
	defer func() { o.depth-- }()
	if o.depth > refMaxRec {
		return dst, &refErr{kind: ekUnsupValue}
	}
	t := v.Type()
	off := len(dst)
	var err *refErr
	switch t {
	case tTime:
		dst, err = refTime(dst, v.Interface().(time.Time), o)
	case tDur:
		dst, err = refDur(dst, time.Duration(v.Int()), o)
	case tNumber:
		s := v.String()
		if s == "" {
			s = "0"
		}
		if !o.noNumValid && !numberGrammar.MatchString(s) {
			return dst, &refErr{kind: ekNumber}
		}
		dst = append(dst, s...)
	case tRaw:
		return refFragment(dst, v.Bytes(), v.IsNil(), t, o)
	case tSyncMap:
		return refSyncMap(dst, v, o)
	default:
		goto notGo
	}
	if err != nil {
		return dst, err
	}
	if quoted && dst[off] != '"' {
		s := string(dst[off:])
		dst = append(append(append(dst[:off], '"'), s...), '"')
	}
	return dst, nil

notGo:
	if t == reflect.PtrTo(tTime) {
		if v.IsNil() {
			return append(dst, "null"...), nil
		}
		return refValue(dst, v.Elem(), o, quoted)
	}
	if done, d, err := refMarshalers(dst, v, o); done {
		return d, err
	}
	k := t.Kind()
	switch k {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr,
		reflect.Float32, reflect.Float64:
		s, err := refScalar(v)
		if err != nil {
			return dst, err
		}
		if quoted {
			s = `"` + s + `"`
		}
		return append(dst, s...), nil
	case reflect.String:
		if quoted {
			if o.noStrEsc {
				return append(append(append(dst, `"\"`...), v.String()...), `\""`...), nil
			}
			inner := `"` + refEscape(v.String(), o) + `"`
			// Only quotes and backslashes still need escaping: everything
			// else special is gone from the inner text.
			return append(dst, `"`+strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(inner)+`"`...), nil
		}
		return append(append(append(dst, '"'), refEscape(v.String(), o)...), '"'), nil
	case reflect.Interface:
		if v.IsNil() {
			return append(dst, "null"...), nil
		}
		return refValue(dst, v.Elem(), o, false)
	case reflect.Ptr:
		if v.IsNil() {
			return append(dst, "null"...), nil
		}
		return refValue(dst, v.Elem(), o, quoted)
	case reflect.Struct:
		return refStruct(dst, v, o)
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 && !offersMarshaler(reflect.PtrTo(t.Elem())) {
			if v.IsNil() {
				return append(dst, "null"...), nil
			}
			b := v.Bytes()
			if o.rawBytes {
				return append(append(append(dst, '"'), refEscape(string(b), o)...), '"'), nil
			}
			return append(dst, `"`+base64.StdEncoding.EncodeToString(b)+`"`...), nil
		}
		if v.IsNil() {
			if o.nilSlice {
				return append(dst, "[]"...), nil
			}
			return append(dst, "null"...), nil
		}
		return refElems(dst, v, o)
	case reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 && !offersMarshaler(reflect.PtrTo(t.Elem())) && o.arrString {
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			return append(append(append(dst, '"'), refEscape(string(b), o)...), '"'), nil
		}
		return refElems(dst, v, o)
	case reflect.Map:
		return refMap(dst, v, o)
	}
	return dst, &refErr{kind: ekUnsupType, typ: t}
}

func offersMarshaler(t reflect.Type) bool {
	return t.Implements(tJSONM) || t.Implements(tTextM) || t.Implements(tAppM) || t.Implements(tAppCtxM)
}

func refElems(dst []byte, v reflect.Value, o *optSet) ([]byte, *refErr) {
	dst = append(dst, '[')
	n := v.Len()
	for i := 0; i < n; i++ {
		if i > 0 {
			dst = append(dst, ',')
		}
		var err *refErr
		if dst, err = refValue(dst, v.Index(i), o, false); err != nil {
			return dst, err
		}
	}
	return append(dst, ']'), nil
}

// refMarshalers handles the custom marshaling interfaces.
func refMarshalers(dst []byte, v reflect.Value, o *optSet) (bool, []byte, *refErr) {
	t := v.Type()
	pt := reflect.PtrTo(t)
	viaPtr := t.Kind() != reflect.Ptr && v.CanAddr()

	for _, it := range []reflect.Type{tAppCtxM, tAppM, tJSONM, tTextM} {
		var recv reflect.Value
		switch {
		case t.Implements(it):
			if (t.Kind() == reflect.Ptr || t.Kind() == reflect.Interface) && v.IsNil() {
				return true, append(dst, "null"...), nil
			}
			recv = v
		case viaPtr && pt.Implements(it):
			recv = v.Addr()
		default:
			continue
		}
		rt := recv.Type()
		i := recv.Interface()
		switch it {
		case tAppCtxM:
			b, err := i.(appendMarshalerCtx).AppendJSONContext(o.ctx, nil)
			if err != nil {
				return true, dst, &refErr{ekMarshaler, rt, err}
			}
			return true, append(dst, b...), nil
		case tAppM:
			b, err := i.(appendMarshaler).AppendJSON(nil)
			if err != nil {
				return true, dst, &refErr{ekMarshaler, rt, err}
			}
			return true, append(dst, b...), nil
		case tJSONM:
			b, err := i.(json.Marshaler).MarshalJSON()
			if err != nil {
				return true, dst, &refErr{ekMarshaler, rt, err}
			}
			d, e := refFragment(dst, b, false, rt, o)
			return true, d, e
		case tTextM:
			b, err := i.(encoding.TextMarshaler).MarshalText()
			if err != nil {
				return true, dst, &refErr{ekMarshaler, rt, err}
			}
			return true, append(append(append(dst, '"'), refEscape(string(b), o)...), '"'), nil
		}
	}
	return false, dst, nil
}

// refFragment embeds a raw JSON fragment.
func refFragment(dst, frag []byte, isNil bool, t reflect.Type, o *optSet) ([]byte, *refErr) {
	if isNil {
		return append(dst, "null"...), nil
	}
	if o.noCompact {
		return append(dst, frag...), nil
	}
	if !json.Valid(frag) {
		return dst, &refErr{ekMarshaler, t, nil}
	}
	var buf bytes.Buffer
	if err := json.Compact(&buf, frag); err != nil {
		return dst, &refErr{ekMarshaler, t, err}
	}
	out := buf.Bytes()
	if !o.noHTML {
		out = bytes.ReplaceAll(out, []byte("<"), []byte(`\u003c`))
		out = bytes.ReplaceAll(out, []byte(">"), []byte(`\u003e`))
		out = bytes.ReplaceAll(out, []byte("&"), []byte(`\u0026`))
	}
	if !o.rawLineSep {
		out = bytes.ReplaceAll(out, []byte("\u2028"), []byte(`\u2028`))
		out = bytes.ReplaceAll(out, []byte("\u2029"), []byte(`\u2029`))
	}
	return append(dst, out...), nil
}

var numberGrammar = regexp.MustCompile(`^-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?$`)

func refFloat(f float64, bits int) (string, *refErr) {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return "", &refErr{kind: ekUnsupValue}
	}
	// ES6 number formatting.
	a := math.Abs(f)
	exp := false
	if a != 0 {
		if bits == 64 {
			exp = a < 1e-6 || a >= 1e21
		} else {
			exp = float32(a) < 1e-6 || float32(a) >= 1e21
		}
	}
	if !exp {
		return strconv.FormatFloat(f, 'f', -1, bits), nil
	}
	s := strconv.FormatFloat(f, 'e', -1, bits)
	m, e, _ := strings.Cut(s, "e")
	sign := e[:1]
	e = strings.TrimLeft(e[1:], "0")
	if sign == "+" && len(e) < 2 {
		e = "0" + e // cannot happen: e+21 is the smallest
	}
	return m + "e" + sign + e, nil
}

func refScalar(v reflect.Value) (string, *refErr) {
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return "true", nil
		}
		return "false", nil
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%d", v.Int()), nil
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprintf("%d", v.Uint()), nil
	case reflect.Float32:
		return refFloat(v.Float(), 32)
	}
	return refFloat(v.Float(), 64)
}

// refEscape returns the escaped content of the JSON string for s.
func refEscape(s string, o *optSet) string {
	if o.noStrEsc {
		return s
	}
	var sb strings.Builder
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		switch {
		case r == utf8.RuneError && n == 1:
			if o.noUTF8 {
				sb.WriteByte(s[i])
			} else {
				sb.WriteString(`\ufffd`)
			}
		case r == '"':
			sb.WriteString(`\"`)
		case r == '\\':
			sb.WriteString(`\\`)
		case r == '\n':
			sb.WriteString(`\n`)
		case r == '\r':
			sb.WriteString(`\r`)
		case r == '\t':
			sb.WriteString(`\t`)
		case r < 0x20:
			fmt.Fprintf(&sb, `\u%04x`, r)
		case r == '<' || r == '>' || r == '&':
			if o.noHTML {
				sb.WriteByte(byte(r))
			} else {
				fmt.Fprintf(&sb, `\u%04x`, r)
			}
		case r == 0x2028 || r == 0x2029:
			fmt.Fprintf(&sb, `\u%04x`, r)
		default:
			sb.WriteString(s[i : i+n])
		}
		i += n
	}
	return sb.String()
}

func refTime(dst []byte, t time.Time, o *optSet) ([]byte, *refErr) {
	if y := t.Year(); y < 0 || y > 9999 {
		return dst, &refErr{kind: ekYear}
	}
	if o.unix {
		return append(dst, fmt.Sprint(t.Unix())...), nil
	}
	return append(append(append(dst, '"'), refEscape(t.Format(o.layout), o)...), '"'), nil
}

func refDur(dst []byte, d time.Duration, o *optSet) ([]byte, *refErr) {
	var s string
	var err *refErr
	switch o.dur {
	case dfString:
		s = `"` + d.String() + `"`
	case dfMinutes:
		s, err = refFloat(d.Minutes(), 64)
	case dfSeconds:
		s, err = refFloat(d.Seconds(), 64)
	case dfMillis:
		s = fmt.Sprint(d.Milliseconds())
	case dfMicros:
		s = fmt.Sprint(d.Microseconds())
	default:
		s = fmt.Sprint(int64(d))
	}
	return append(dst, s...), err
}

// ---- maps ----

// refKey returns the unescaped text of a map key.
func refKey(v reflect.Value, o *optSet) (string, *refErr) {
	t := v.Type()
	raw := *o
	raw.noStrEsc = true
	switch {
	case t.Kind() == reflect.String:
		return v.String(), nil
	case t == tTime:
		b, err := refTime(nil, v.Interface().(time.Time), &raw)
		return strings.TrimSuffix(strings.TrimPrefix(string(b), `"`), `"`), err
	case t == tDur:
		b, err := refDur(nil, time.Duration(v.Int()), &raw)
		return strings.Trim(string(b), `"`), err
	case t == reflect.PtrTo(tTime):
		if v.IsNil() {
			return "", nil
		}
		return refKey(v.Elem(), o)
	case t.Implements(tTextM):
		if (t.Kind() == reflect.Ptr || t.Kind() == reflect.Interface) && v.IsNil() {
			return "", nil
		}
		b, err := v.Interface().(encoding.TextMarshaler).MarshalText()
		if err != nil {
			return "", &refErr{ekMarshaler, t, err}
		}
		return string(b), nil
	}
	s, err := refScalar(v)
	return s, err
}

func refKeyTypeOK(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.String, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return true
	}
	return t == tTime || t.Implements(tTextM)
}

type refEntry struct {
	key string
	val []byte
}

func refEntries(dst []byte, es []refEntry, o *optSet) []byte {
	sort.SliceStable(es, func(i, j int) bool { return es[i].key < es[j].key })
	dst = append(dst, '{')
	for i, e := range es {
		if i > 0 {
			dst = append(dst, ',')
		}
		dst = append(dst, '"')
		dst = append(dst, refEscape(e.key, o)...)
		dst = append(dst, `":`...)
		dst = append(dst, e.val...)
	}
	return append(dst, '}')
}

func refMap(dst []byte, v reflect.Value, o *optSet) ([]byte, *refErr) {
	if !refKeyTypeOK(v.Type().Key()) {
		return dst, &refErr{kind: ekUnsupType, typ: v.Type()}
	}
	if v.IsNil() {
		if o.nilMap {
			return append(dst, "{}"...), nil
		}
		return append(dst, "null"...), nil
	}
	es := make([]refEntry, 0, v.Len())
	it := v.MapRange()
	for it.Next() {
		k, err := refKey(it.Key(), o)
		if err != nil {
			return dst, err
		}
		b, err := refValue(nil, it.Value(), o, false)
		if err != nil {
			return dst, err
		}
		es = append(es, refEntry{k, b})
	}
	return refEntries(dst, es, o), nil
}

func refSyncMap(dst []byte, v reflect.Value, o *optSet) ([]byte, *refErr) {
	var sm *sync.Map
	if v.CanAddr() {
		sm = v.Addr().Interface().(*sync.Map)
	} else {
		p := reflect.New(tSyncMap)
		p.Elem().Set(v)
		sm = p.Interface().(*sync.Map)
	}
	var es []refEntry
	var err *refErr
	sm.Range(func(k, val interface{}) bool {
		if k == nil || !refKeyTypeOK(reflect.TypeOf(k)) {
			err = &refErr{kind: ekSyncKey}
			return false
		}
		var ks string
		if ks, err = refKey(reflect.ValueOf(k), o); err != nil {
			return false
		}
		var b []byte
		if val == nil {
			b = []byte("null")
		} else if b, err = refValue(nil, reflect.ValueOf(val), o, false); err != nil {
			return false
		}
		es = append(es, refEntry{ks, b})
		return true
	})
	if err != nil {
		return dst, err
	}
	return refEntries(dst, es, o), nil
}

// ---- structs ----

type refField struct {
	name      string
	index     []int
	tagged    bool
	quoted    bool
	omitEmpty bool
	omitNil   bool
	typ       reflect.Type
}

var refFieldCache sync.Map

func refFields(t reflect.Type) []refField {
	if f, ok := refFieldCache.Load(t); ok {
		return f.([]refField)
	}
	f := computeRefFields(t)
	refFieldCache.Store(t, f)
	return f
}

func refTagName(s string) bool {
	if s == "" {
		return false
	}
	for _, c := range s {
		if c == '"' || c == '\\' || c == ',' || c == '\'' || c == '`' {
			return false
		}
		if c < 0x7f && c >= 0x20 {
			continue
		}
		if !unicode.IsLetter(c) && !unicode.IsDigit(c) {
			return false
		}
	}
	return true
}

// computeRefFields collects all candidate fields level by level and then
// applies the dominance rule to each name.
func computeRefFields(t reflect.Type) []refField {
	type todo struct {
		typ   reflect.Type
		index []int
		mult  int // how many embedding paths of this depth lead here
	}
	var all []refField
	visited := map[reflect.Type]bool{}
	level := []todo{{t, nil, 1}}
	for len(level) > 0 {
		var next []todo
		pos := map[reflect.Type]int{}
		for _, td := range level {
			if visited[td.typ] {
				continue
			}
			visited[td.typ] = true
			for i := 0; i < td.typ.NumField(); i++ {
				sf := td.typ.Field(i)
				ft := sf.Type
				st := ft
				if st.Kind() == reflect.Ptr {
					st = st.Elem()
				}
				exported := sf.PkgPath == ""
				if sf.Anonymous {
					if !exported && st.Kind() != reflect.Struct {
						continue
					}
				} else if !exported {
					continue
				}
				tag := sf.Tag.Get("json")
				if tag == "-" {
					continue
				}
				parts := strings.Split(tag, ",")
				name := parts[0]
				opts := map[string]bool{}
				for _, p := range parts[1:] {
					opts[p] = true
				}
				if !refTagName(name) {
					name = ""
				}
				if ft.Name() == "" && ft.Kind() == reflect.Ptr {
					ft = ft.Elem()
				}
				index := append(append([]int(nil), td.index...), i)
				if name == "" && sf.Anonymous && ft.Kind() == reflect.Struct {
					if p, ok := pos[ft]; ok {
						next[p].mult++
					} else {
						pos[ft] = len(next)
						next = append(next, todo{ft, index, 1})
					}
					continue
				}
				f := refField{name: name, index: index, tagged: name != "", omitEmpty: opts["omitempty"], omitNil: opts["omitnil"], typ: sf.Type}
				if name == "" {
					f.name = sf.Name
				}
				if opts["string"] {
					switch ft.Kind() {
					case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
						reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr,
						reflect.Float32, reflect.Float64, reflect.String:
						f.quoted = true
					}
				}
				all = append(all, f)
				if td.mult > 1 {
					all = append(all, f)
				}
			}
		}
		level = next
	}
	byName := map[string][]refField{}
	for _, f := range all {
		byName[f.name] = append(byName[f.name], f)
	}
	var out []refField
	for _, fs := range byName {
		min := len(fs[0].index)
		for _, f := range fs {
			if len(f.index) < min {
				min = len(f.index)
			}
		}
		var top []refField
		for _, f := range fs {
			if len(f.index) == min && f.tagged {
				top = append(top, f)
			}
		}
		if len(top) == 0 {
			for _, f := range fs {
				if len(f.index) == min {
					top = append(top, f)
				}
			}
		}
		if len(top) == 1 {
			out = append(out, top[0])
		}
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i].index, out[j].index
		for k := 0; k < len(a) && k < len(b); k++ {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return len(a) < len(b)
	})
	return out
}

func refEmpty(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Array, reflect.Map, reflect.Slice, reflect.String:
		return v.Len() == 0
	case reflect.Bool:
		return !v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int() == 0
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return v.Uint() == 0
	case reflect.Float32, reflect.Float64:
		return v.Float() == 0
	case reflect.Interface, reflect.Ptr:
		return v.IsNil()
	}
	return false
}

func inList(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func refStruct(dst []byte, v reflect.Value, o *optSet) ([]byte, *refErr) {
	dst = append(dst, '{')
	n := 0
fields:
	for _, f := range refFields(v.Type()) {
		if o.hasDeny && inList(o.deny, f.name) || o.hasAllow && !inList(o.allow, f.name) {
			continue
		}
		fv := v
		for _, i := range f.index {
			if fv.Kind() == reflect.Ptr {
				if fv.IsNil() {
					continue fields
				}
				fv = fv.Elem()
			}
			fv = fv.Field(i)
		}
		if f.omitEmpty && refEmpty(fv) {
			continue
		}
		if f.omitNil {
			switch fv.Kind() {
			case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map:
				if fv.IsNil() {
					continue
				}
			}
		}
		val, err := refValue(nil, fv, o, f.quoted)
		if err != nil {
			return dst, err
		}
		if f.omitNil && (f.typ.Implements(tJSONM) || reflect.PtrTo(f.typ).Implements(tJSONM)) && string(val) == "null" {
			continue
		}
		if n > 0 {
			dst = append(dst, ',')
		}
		n++
		name := f.name
		if !o.noHTML {
			name = strings.NewReplacer("<", `\u003c`, ">", `\u003e`, "&", `\u0026`).Replace(name)
		}
		dst = append(dst, '"')
		dst = append(dst, name...)
		dst = append(dst, `":`...)
		dst = append(dst, val...)
	}
	return append(dst, '}'), nil
}
