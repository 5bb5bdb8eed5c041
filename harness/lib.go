package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"reflect"
	"runtime/debug"
	"strings"
	"time"

	"github.com/wI2L/jettison"
)

func libMarshal(v interface{}) ([]byte, error) {
	b, err := jettison.Marshal(v)
	if err == nil && nestedSink != nil {
		nestedSink(b)
	}
	return b, err
}

func libAppend(b []byte, v interface{}) ([]byte, error) { return jettison.Append(b, v) }

var durFmts = [...]jettison.DurationFmt{
	dfString: jettison.DurationString, dfMinutes: jettison.DurationMinutes, dfSeconds: jettison.DurationSeconds,
	dfMillis: jettison.DurationMilliseconds, dfMicros: jettison.DurationMicroseconds, dfNanos: jettison.DurationNanoseconds,
}

// options returns the library's options for o, in a canonical order.
func (o *optSet) options() []jettison.Option {
	var l []jettison.Option
	if o.ctx != context.TODO() {
		l = append(l, jettison.WithContext(o.ctx))
	}
	if o.layout != time.RFC3339Nano {
		l = append(l, jettison.TimeLayout(o.layout))
	}
	if o.dur != dfNanos {
		l = append(l, jettison.DurationFormat(durFmts[o.dur]))
	}
	for _, f := range []struct {
		on  bool
		opt func() jettison.Option
	}{
		{o.unix, jettison.UnixTime}, {o.unsorted, jettison.UnsortedMap}, {o.rawBytes, jettison.RawByteSlice}, {o.arrString, jettison.ByteArrayAsString},
		{o.nilMap, jettison.NilMapEmpty}, {o.nilSlice, jettison.NilSliceEmpty}, {o.noStrEsc, jettison.NoStringEscaping}, {o.noHTML, jettison.NoHTMLEscaping},
		{o.noUTF8, jettison.NoUTF8Coercion}, {o.noCompact, jettison.NoCompact}, {o.noNumValid, jettison.NoNumberValidation},
	} {
		if f.on {
			l = append(l, f.opt())
		}
	}
	if o.hasAllow {
		l = append(l, jettison.AllowList(o.allow))
	}
	if o.hasDeny {
		l = append(l, jettison.DenyList(o.deny))
	}
	// The order of the options, repetitions of one and nil options make no
	// difference.
	if o.perm != 0 && len(l) != 0 {
		r := &rng{s: o.perm}
		if r.chance(4) {
			l = append(l, l[r.intn(len(l))])
		}
		if r.chance(8) {
			l = append(l, nil)
		}
		for i := len(l) - 1; i > 0; i-- {
			j := r.intn(i + 1)
			l[i], l[j] = l[j], l[i]
		}
	}
	return l
}

func (o *optSet) String() string {
	var sb strings.Builder
	if o.ctx != context.TODO() {
		sb.WriteString("ctx ")
	}
	fmt.Fprintf(&sb, "layout=%q dur=%d", o.layout, o.dur)
	for _, f := range []struct {
		on bool
		n  string
	}{{o.unix, "unix"}, {o.unsorted, "unsorted"}, {o.rawBytes, "rawBytes"}, {o.arrString, "arrString"}, {o.nilMap, "nilMap"}, {o.nilSlice, "nilSlice"},
		{o.noStrEsc, "noStrEsc"}, {o.noHTML, "noHTML"}, {o.noUTF8, "noUTF8"}, {o.noCompact, "noCompact"}, {o.noNumValid, "noNumValid"}} {
		if f.on {
			sb.WriteString(" " + f.n)
		}
	}
	if o.hasAllow {
		fmt.Fprintf(&sb, " allow=%q", o.allow)
	}
	if o.hasDeny {
		fmt.Fprintf(&sb, " deny=%q", o.deny)
	}
	return sb.String()
}

func (o *optSet) isDefault() bool {
	return len(o.options()) == 0
}

var layouts = []string{
	time.RFC3339, time.RFC3339Nano, time.RFC3339, time.RFC3339Nano, time.ANSIC, time.RFC822, time.RFC850, time.RFC1123Z, time.Kitchen, time.StampMicro, time.DateOnly,
	`2006-01-02T15:04:05.000Z07:00`, `"2006"`, `Mon Jan _2 <MST> & \ 2006`, "2006\n01\t02", "null", "é世\u2028 2006", "MST", "-0700 .000000 .999", "\xff2006", " ", "2006-01-02T15:04:05.999999999Z07:00 ",
	"2006-01-02T15:04:05Z0700", "\x01",
}

type optMode struct {
	escapeHatches bool // allow NoStringEscaping, NoCompact, NoNumberValidation
	unsorted      bool
	lists         bool
	density       int
}

// context returns a context, which may have ended already.
func (r *rng) context() context.Context {
	ctx := context.WithValue(context.Background(), ctxKey{}, r.word())
	switch r.intn(8) {
	case 0:
		ctx, cancel := context.WithCancel(ctx)
		cancel()
		return ctx
	case 1:
		ctx, cancel := context.WithDeadline(ctx, time.Unix(0, 0))
		cancel()
		return ctx
	case 2:
		return (*plainCtx)(nil)
	case 3:
		return context.Background()
	}
	return ctx
}

// plainCtx is a context that works with a nil pointer.
type plainCtx struct{ x int }

func (*plainCtx) Deadline() (t time.Time, ok bool)  { return }
func (*plainCtx) Done() <-chan struct{}             { return nil }
func (*plainCtx) Err() error                        { return nil }
func (*plainCtx) Value(key interface{}) interface{} { return nil }

// randOpts returns a random option set.
func (r *rng) randOpts(m optMode) *optSet {
	o := defaultOpts()
	o.perm = r.u64()
	d := m.density
	if d == 0 {
		d = 2 + r.intn(5)
	}
	if r.chance(d) {
		o.ctx = r.context()
	}
	if r.chance(d) {
		o.layout = layouts[r.intn(len(layouts))]
	}
	if r.chance(d) {
		o.dur = durFmt(r.intn(6))
	}
	o.unix = r.chance(2 * d)
	o.rawBytes = r.chance(d)
	o.arrString = r.chance(d)
	o.nilMap = r.chance(d)
	o.nilSlice = r.chance(d)
	o.noHTML = r.chance(d)
	o.noUTF8 = r.chance(d)
	if m.escapeHatches {
		o.noStrEsc = r.chance(2 * d)
		o.noCompact = r.chance(2 * d)
		o.noNumValid = r.chance(2 * d)
	}
	if m.unsorted {
		o.unsorted = r.chance(d)
	}
	if m.lists && r.chance(2*d) {
		o.hasDeny = true
		o.deny = r.nameList()
	}
	if m.lists && r.chance(3*d) {
		o.hasAllow = true
		o.allow = r.nameList()
	}
	return o
}

func (r *rng) nameList() []string {
	pool := []string{"A", "B", "C", "D", "E", "F", "a", "b", "foo", "Foo", "Bar", "x-y", "é", "<&>", "N", "V", "X", "Next", "S", "T", "z", "Z", "", "1", "-", "Kids", "I", "H", "世"}
	l := []string{}
	for i := r.intn(12); i > 0; i-- {
		l = append(l, pool[r.intn(len(pool))])
	}
	if r.chance(4) && len(l) > 0 {
		l = append(l, l[r.intn(len(l))]) // once more
	}
	if r.chance(8) {
		// Long lists.
		for i := r.intn(120); i > 0; i-- {
			switch r.intn(8) {
			case 0:
				l = append(l, pool[r.intn(len(pool))])
			default:
				l = append(l, fmt.Sprintf("%s%d", pool[r.intn(len(pool))], r.intn(100)))
			}
		}
	}
	return l
}

// ---- outcomes ----

type outcome struct {
	out []byte
	err error
	pan interface{}
}

func (o outcome) String() string {
	switch {
	case o.pan != nil:
		return fmt.Sprintf("panic: %v", o.pan)
	case o.err != nil:
		return fmt.Sprintf("error: %v", o.err)
	}
	return clip(fmt.Sprintf("%q", o.out), 1500)
}

func (o outcome) ok() bool { return o.pan == nil && o.err == nil }

func try(f func() ([]byte, error)) (o outcome) {
	defer func() {
		if p := recover(); p != nil {
			o = outcome{pan: p}
			if *fOnly >= 0 && os.Getenv("VERIF_STACKS") != "" {
				debug.PrintStack()
			}
		}
	}()
	b, err := f()
	return outcome{out: b, err: err}
}

func tryLib(v interface{}, opts []jettison.Option) outcome {
	if opts == nil {
		return try(func() ([]byte, error) { return jettison.Marshal(v) })
	}
	return try(func() ([]byte, error) { return jettison.MarshalOpts(v, opts...) })
}

func tryStd(v interface{}) outcome {
	return try(func() ([]byte, error) { return json.Marshal(v) })
}

// tryRef runs the reference model.
func tryRef(v interface{}, o *optSet) (oc outcome) {
	return try(func() ([]byte, error) {
		b, err := refMarshal(v, o)
		if err != nil {
			return nil, err
		}
		return b, nil
	})
}

// class of the outcome: ok, err or panic.
func (o outcome) class() string {
	switch {
	case o.pan != nil:
		return "panic"
	case o.err != nil:
		return "error"
	}
	return "ok"
}

// sameOutcome compares class and bytes.
func sameOutcome(a, b outcome) bool {
	if a.class() != b.class() {
		return false
	}
	return !a.ok() || bytes.Equal(a.out, b.out)
}

// eqRef compares an outcome of the library with the model's, allowing both
// spellings of line separators inside fragments.
func eqRef(got outcome, v interface{}, o *optSet) (outcome, bool) {
	want := tryRef(v, o)
	if got.class() != want.class() {
		return want, anyOrder(got, want, func() outcome { return tryRef(v, o) }, v)
	}
	if o.unsorted {
		if sameCanonical(got, want) {
			return want, true
		}
	} else if sameOutcome(got, want) {
		return want, true
	}
	o2 := *o
	o2.rawLineSep = true
	want2 := tryRef(v, &o2)
	if o.unsorted {
		return want, sameCanonical(got, want2)
	}
	return want, sameOutcome(got, want2)
}

func sameCanonical(a, b outcome) bool {
	if a.class() != b.class() {
		return false
	}
	if !a.ok() {
		return true
	}
	if bytes.Equal(a.out, b.out) {
		return true
	}
	if len(a.out) != len(b.out) {
		return false
	}
	ca, ok1 := canonical(a.out)
	cb, ok2 := canonical(b.out)
	return ok1 && ok2 && ca == cb
}

// refErrKind maps an error of the library to the model's kinds.
func libErrKind(err error) errKind {
	var (
		ut *jettison.UnsupportedTypeError
		uv *jettison.UnsupportedValueError
		me *jettison.MarshalerError
	)
	switch {
	case err == nil:
		return ekNone
	case errors.As(err, &me):
		return ekMarshaler
	case errors.As(err, &ut):
		return ekUnsupType
	case errors.As(err, &uv):
		return ekUnsupValue
	}
	return ekNumber // some other error
}

// canonical returns text with the members of every object sorted, false if
// it is not well formed.
func canonical(b []byte) (string, bool) {
	p := &canonParser{b: b}
	s, ok := p.value(0)
	return s, ok && p.i == len(b)
}

type canonParser struct {
	b []byte
	i int
}

func (p *canonParser) str() (string, bool) {
	st := p.i
	if p.i >= len(p.b) || p.b[p.i] != '"' {
		return "", false
	}
	for p.i++; p.i < len(p.b); p.i++ {
		switch p.b[p.i] {
		case '\\':
			p.i++
		case '"':
			p.i++
			return string(p.b[st:p.i]), true
		}
	}
	return "", false
}

func (p *canonParser) value(depth int) (string, bool) {
	if p.i >= len(p.b) || depth > 20000 {
		return "", false
	}
	switch c := p.b[p.i]; c {
	case '"':
		return p.str()
	case '{', '[':
		end := byte('}')
		if c == '[' {
			end = ']'
		}
		p.i++
		var l []string
		for {
			if p.i >= len(p.b) {
				return "", false
			}
			if p.b[p.i] == end && len(l) == 0 {
				p.i++
				return string([]byte{c, end}), true
			}
			var e string
			if c == '{' {
				k, ok := p.str()
				if !ok || p.i >= len(p.b) || p.b[p.i] != ':' {
					return "", false
				}
				p.i++
				e = k + ":"
			}
			v, ok := p.value(depth + 1)
			if !ok {
				return "", false
			}
			l = append(l, e+v)
			if p.i >= len(p.b) {
				return "", false
			}
			switch p.b[p.i] {
			case ',':
				p.i++
				continue
			case end:
				p.i++
				if c == '{' {
					sortStrings(l)
				}
				return string(c) + strings.Join(l, ",") + string(end), true
			}
			return "", false
		}
	default:
		st := p.i
		for p.i < len(p.b) && strings.IndexByte(",]}", p.b[p.i]) < 0 {
			p.i++
		}
		return string(p.b[st:p.i]), p.i > st
	}
}

func describe(v interface{}) string {
	t := reflect.TypeOf(v)
	var sb strings.Builder
	vrepr(&sb, reflect.ValueOf(v), 0)
	return fmt.Sprintf("type %v = %s value %s", t, typeDef(t), clip(sb.String(), 1500))
}

func typeDef(t reflect.Type) string {
	if t == nil {
		return "nil"
	}
	e := t
	for i := 0; i < 10 && (e.Kind() == reflect.Ptr || e.Kind() == reflect.Slice); i++ {
		e = e.Elem()
	}
	if e.Kind() != reflect.Struct {
		return e.Kind().String()
	}
	var sb strings.Builder
	sb.WriteString("struct{")
	for i := 0; i < e.NumField() && i < 20; i++ {
		f := e.Field(i)
		if f.Anonymous {
			sb.WriteString("embed ")
		}
		fmt.Fprintf(&sb, "%s %v `%s`; ", f.Name, f.Type, f.Tag)
	}
	return sb.String() + "}"
}

// isCompactJSON reports whether b is exactly one compact JSON text.
func isCompactJSON(b []byte) (string, bool) {
	if !json.Valid(b) {
		return "not a valid JSON text", false
	}
	var buf bytes.Buffer
	if err := json.Compact(&buf, b); err != nil {
		return "not a valid JSON text", false
	}
	if !bytes.Equal(buf.Bytes(), b) {
		return "contains insignificant white space", false
	}
	return "", true
}

// diff describes where two outcomes part.
func diff(got, want outcome) string {
	if !got.ok() || !want.ok() {
		return fmt.Sprintf("got %s\nexpected %s", clip(got.String(), 500), clip(want.String(), 500))
	}
	i := 0
	for i < len(got.out) && i < len(want.out) && got.out[i] == want.out[i] {
		i++
	}
	cut := func(b []byte) string {
		lo, hi := i-60, i+60
		if lo < 0 {
			lo = 0
		}
		if hi > len(b) {
			hi = len(b)
		}
		return fmt.Sprintf("...%q", b[lo:hi])
	}
	return fmt.Sprintf("first difference at byte %d of %d (expected %d bytes)\ngot      %s\nexpected %s\nwhole output %v", i, len(got.out), len(want.out), cut(got.out), cut(want.out), got)
}

// anyOrder reports whether two failures of one value may just be two of its
// elements failing, reached in another order.
func anyOrder(a, b outcome, again func() outcome, v interface{}) bool {
	if a.ok() || b.ok() {
		return false
	}
	t0 := cpuTime()
	for i := 0; i < 50 && cpuTime()-t0 < 2*time.Second; i++ {
		if again().class() == a.class() {
			return true
		}
	}
	return hasOrder(v)
}

// hasOrder reports whether v may hold elements in an order that is not fixed.
func hasOrder(v interface{}) bool {
	var sb strings.Builder
	vrepr(&sb, reflect.ValueOf(v), -20)
	return strings.Contains(sb.String(), "map") || strings.Contains(sb.String(), "sync.Map") || strings.Contains(sb.String(), "~")
}
