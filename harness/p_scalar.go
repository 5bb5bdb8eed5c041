package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"time"
	"unicode/utf8"

	"github.com/wI2L/jettison"
)

func init() {
	props["C14"] = &propDef{quick: 6000, thorough: 250000, run: runC14,
		rule: "distinct pairs of an instant in its zone and a layout (or Unix seconds), compared with Time.Format"}
	props["C15"] = &propDef{quick: 6000, thorough: 250000, run: runC15,
		rule: "distinct pairs of a duration and a format, compared with package time"}
	props["C16"] = &propDef{quick: 6000, thorough: 250000, run: runC16,
		rule: "distinct pairs of a string and escaping options, compared with the escaping rules and decoded back"}
	props["C17"] = &propDef{quick: 6000, thorough: 250000, run: runC17,
		rule: "distinct numbers (by width and bits, or text), compared with strconv/encoding/json and parsed back"}
}

// positions checks v's encoding in random positions against the model.
func (c *caseCtx) positions(key string, v reflect.Value, o *optSet, n int) bool {
	for i := 0; i < n; i++ {
		p := reflect.New(v.Type()).Elem()
		p.Set(v)
		w := wrap(c.intn(nPositions), p)
		if w.Kind() == reflect.Interface {
			w = w.Elem()
		}
		iv := w.Interface()
		if c.chance(4) {
			iv = c.bury(iv)
		}
		dst, old, _ := c.randDst()
		got := try(func() ([]byte, error) { return jettison.AppendOpts(dst, iv, o.options()...) })
		if got.ok() {
			got.out = got.out[len(old):]
		}
		c.evals++
		want, ok := eqRef(got, iv, o)
		if !ok {
			c.desc = describe(iv) + " options " + o.String()
			c.fail(key+"-in-position", "%s", diff(got, want))
			return false
		}
	}
	return true
}

// mapKeyPosition checks v as the key of a map.
func (c *caseCtx) mapKey(key string, k reflect.Value, o *optSet) bool {
	m := reflect.MakeMap(reflect.MapOf(k.Type(), reflect.TypeOf(0)))
	m.SetMapIndex(k, reflect.ValueOf(1))
	iv := m.Interface()
	got := tryLib(iv, append([]jettison.Option{nil}, o.options()...))
	c.evals++
	want, ok := eqRef(got, iv, o)
	if !ok {
		c.desc = describe(iv) + " options " + o.String()
		c.fail(key+"-as-key", "%s", diff(got, want))
	}
	return ok
}

func runC14(c *caseCtx) {
	check := func(t time.Time, o *optSet, opts []jettison.Option) bool {
		var want []byte
		switch {
		case t.Year() < 0 || t.Year() > 9999:
		case o.unix:
			want = strconv.AppendInt(nil, t.Unix(), 10)
		default:
			want = []byte(`"` + refEscape(t.Format(o.layout), o) + `"`)
		}
		buf := [8]byte{'x'}
		got := try(func() ([]byte, error) { return jettison.AppendOpts(buf[:1:1+c.intn(7)], t, opts...) })
		c.evals++
		switch {
		case want == nil:
			if got.err == nil {
				c.desc = fmt.Sprintf("%v (unix %d, zone offset %v) options %v", t, t.Unix(), zoff(t), o)
				c.fail("year-accepted", "year %d: got %v, expected an error", t.Year(), got)
				return false
			}
			count("years_out_of_range", 1)
			return true
		case !got.ok() || !bytes.Equal(got.out[1:], want):
			c.desc = fmt.Sprintf("unix %d nsec %d zone offset %d options %v", t.Unix(), t.Nanosecond(), zoff(t), o)
			c.fail("time-differs", "%s", diff(got, outcome{out: append([]byte{'x'}, want...)}))
			return false
		}
		seen(t.UnixNano(), t.Year(), zoff(t), o.layout, o.unix)
		return true
	}
	o := defaultOpts()
	switch c.intn(6) {
	case 0, 1:
	case 2:
		o.layout = time.RFC3339
	case 3:
		o.layout = layouts[c.intn(len(layouts))]
	case 4:
		o.unix = true
		if c.bool() {
			o.layout = layouts[c.intn(len(layouts))]
			o.perm = c.u64()
		}
	case 5:
		o = c.randOpts(optMode{density: 2})
	}
	opts := o.options()
	if c.chance(4) {
		// Another local zone, with the same name or not.
		old := time.Local
		defer func() { time.Local = old }()
		time.Local = c.ruleZone()
		if c.bool() {
			time.Local = time.FixedZone("Local", c.intn(24*3600)-12*3600)
		}
		count("local_zones", 1)
	}
	sample(func() string { t := c.fork().timev(false, false); return fmt.Sprintf("%v %v", t, o) })
	switch c.intn(6) {
	case 5:
		// Times that are the same in all but one respect, in any order.
		t := c.timev(false, false)
		name, off := t.Zone()
		l := []time.Time{t, t.UTC(), t.Local(), t.Add(1), t.Add(-1), t.Add(time.Second), t.Add(24 * time.Hour), t.AddDate(0, 1, 0), t.AddDate(1, 0, 0), t.AddDate(100, 0, 0), t.Add(1 << 32 * time.Nanosecond), t.Add(time.Duration(c.intn(2000)) * time.Millisecond),
			t.In(time.FixedZone(t.Location().String(), off)), t.In(time.FixedZone(t.Location().String(), off+60)), t.In(time.FixedZone(name, off-3600)), t.In(time.FixedZone(name+"x", off)), t.In(time.FixedZone("", off)), t.In(time.FixedZone("UTC", off)), t.In(time.FixedZone("UTC", 3600)), t.In(time.FixedZone("Local", -3600)), t.In(c.ruleZone()),
			time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), time.FixedZone(name, off+1800)), time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), time.UTC), t.Truncate(time.Second), t.Truncate(24 * time.Hour)}
		for i := 0; i < 40; i++ {
			x := l[c.intn(len(l))]
			if x.Year() < 0 || x.Year() > 9999 {
				continue
			}
			if c.chance(10) {
				if o = defaultOpts(); c.bool() {
					o.layout = layouts[c.intn(len(layouts))]
				}
				opts = o.options()
			}
			if !check(x, o, opts) {
				return
			}
		}
		count("relatives", 1)
	case 4:
		// Around the changes of the offset of one zone, back and forth.
		loc := c.ruleZone()
		t := time.Date(1880+c.intn(200), time.Month(1+c.intn(12)), 1+c.intn(28), c.intn(24), c.intn(60), c.intn(60), 0, loc)
		for i := 0; i < 6; i++ {
			from, to := t.ZoneBounds()
			for _, b := range []time.Time{from, to} {
				if b.IsZero() {
					continue
				}
				for _, d := range []time.Duration{-1, 0, 1, -time.Second, time.Second, -time.Hour, time.Hour, -24 * time.Hour, 24 * time.Hour, time.Duration(c.intn(2000)-1000) * time.Hour} {
					if !check(b.Add(d), o, opts) {
						return
					}
				}
			}
			if t = to; t.IsZero() {
				break
			}
		}
		count("zone_changes", 1)
	case 0:
		// A sweep over consecutive days, months or seconds.
		t := c.timev(false, false)
		step := []time.Duration{time.Second, time.Minute, time.Hour, 24 * time.Hour, 24*time.Hour + time.Second, 31 * 24 * time.Hour, 366 * 24 * time.Hour, 1, 999, time.Millisecond}[c.intn(10)]
		for i := 0; i < 60; i++ {
			if t.Year() < 0 || t.Year() > 9999 {
				break
			}
			if !check(t, o, opts) {
				return
			}
			t = t.Add(step)
		}
	case 1:
		// Around the ends of the range, as seen in the zone.
		loc := c.zone(false)
		for _, t := range []time.Time{time.Date(0, 1, 1, 0, 0, 0, 0, loc), time.Date(9999, 12, 31, 23, 59, 59, 999999999, loc), time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC), time.Date(0, 1, 1, 0, 0, 0, 0, time.UTC)} {
			for _, d := range []time.Duration{0, 1, -1, time.Second, -time.Second, 24 * time.Hour, -24 * time.Hour} {
				if !check(t.Add(d), o, opts) || !check(t.Add(d).In(loc), o, opts) {
					return
				}
			}
		}
	case 2:
		// All sub-second shapes in one zone.
		t := c.timev(false, false).Truncate(time.Second)
		for digits := 0; digits <= 9; digits++ {
			p := int64(1)
			for k := digits; k < 9; k++ {
				p *= 10
			}
			n := int64(c.intn(1e9)) / p * p
			for _, ns := range []int64{n, 1e9 - p, p % 1e9} {
				x := t.Add(time.Duration(ns))
				if x.Year() >= 0 && x.Year() <= 9999 && !check(x, o, opts) {
					return
				}
			}
		}
	default:
		for i := 0; i < 25; i++ {
			t := c.timev(false, true)
			// With a monotonic reading now and then.
			if c.chance(20) {
				t = time.Now().Add(time.Duration(c.intn(1000000)))
			}
			if !check(t, o, opts) {
				return
			}
		}
	}
	t := c.timev(false, c.chance(6))
	if c.chance(6) && !c.positions("defined-copy", []reflect.Value{reflect.ValueOf(Time(t)), reflect.ValueOf(MyTime(t))}[c.intn(2)], o, 2) {
		return
	}
	if !c.positions("time", reflect.ValueOf(t), o, 2) || !c.mapKey("time", reflect.ValueOf(t), o) {
		return
	}
	if c.chance(3) {
		pt := &t
		if c.chance(6) {
			pt = nil
		}
		if !c.positions("time-pointer", reflect.ValueOf(pt), o, 1) || !c.mapKey("time-pointer", reflect.ValueOf(pt), o) {
			return
		}
		g := newVgen(c.rng)
		g.budget = 40
		v := reflect.New(tof((*TimeAll)(nil))).Elem()
		g.fill(v, 0)
		c.positions("time-fields", v, o, 1)
	}
}

func zoff(t time.Time) int { _, o := t.Zone(); return o }

func durText(d time.Duration, f durFmt) string {
	switch f {
	case dfString:
		return `"` + d.String() + `"`
	case dfMinutes:
		b, _ := json.Marshal(d.Minutes())
		return string(b)
	case dfSeconds:
		b, _ := json.Marshal(d.Seconds())
		return string(b)
	case dfMillis:
		return strconv.FormatInt(int64(d)/1e6, 10)
	case dfMicros:
		return strconv.FormatInt(int64(d)/1e3, 10)
	}
	return strconv.FormatInt(int64(d), 10)
}

func localDuration(d int64) interface{} {
	type Duration int64
	return Duration(d)
}

func runC15(c *caseCtx) {
	o := defaultOpts()
	check := func(d time.Duration, f durFmt) bool {
		o.dur = f
		want := durText(d, f)
		got := try(func() ([]byte, error) { return jettison.MarshalOpts(d, jettison.DurationFormat(durFmts[f])) })
		c.evals++
		if !got.ok() || string(got.out) != want {
			c.desc = fmt.Sprintf("duration %d format %d", int64(d), f)
			c.fail("duration-differs", "%s", diff(got, outcome{out: []byte(want)}))
			return false
		}
		if f == dfNanos {
			if g2 := tryLib(d, nil); !g2.ok() || string(g2.out) != want {
				c.fail("duration-differs-default", "%d: %v", int64(d), g2)
				return false
			}
		}
		seen(int64(d), f)
		return true
	}
	var ds []time.Duration
	switch c.intn(3) {
	case 0:
		// A dense range, near a unit or a power of two or ten.
		base := c.durv()
		for i := -8; i <= 8; i++ {
			ds = append(ds, base+time.Duration(i))
		}
	case 1:
		u := []time.Duration{1, 1e3, 1e6, 1e9, 60e9, 3600e9}[c.intn(6)]
		k := c.intn(5000)
		for i := 0; i < 10; i++ {
			d := u * time.Duration(k+i)
			ds = append(ds, d, -d, d+1, d-1, -d-1)
		}
	default:
		for i := 0; i < 20; i++ {
			ds = append(ds, c.durv())
		}
	}
	for _, d := range ds {
		for f := dfString; f <= dfNanos; f++ {
			if !check(d, f) {
				return
			}
		}
	}
	sample(func() string {
		return fmt.Sprintf("%d as %s, %s", int64(ds[0]), durText(ds[0], dfString), durText(ds[0], dfMinutes))
	})
	o = c.randOpts(optMode{density: 3})
	o.dur = durFmt(c.intn(6))
	d := c.durv()
	if !c.positions("duration", reflect.ValueOf(d), o, 2) || !c.mapKey("duration", reflect.ValueOf(d), o) {
		return
	}
	if c.chance(4) && !c.positions("defined-copy", []reflect.Value{reflect.ValueOf(Duration(d)), reflect.ValueOf(MyDur(d)), reflect.ValueOf(localDuration(int64(d)))}[c.intn(3)], o, 2) {
		return
	}
	if c.chance(3) {
		g := newVgen(c.rng)
		g.budget = 40
		v := reflect.New(tof((*DurAll)(nil))).Elem()
		g.fill(v, 0)
		if !c.positions("duration-fields", v, o, 1) {
			return
		}
		c.positions("duration-pointer", reflect.ValueOf(&d), o, 1)
	}
}

// ---- C16 ----

func (c *caseCtx) checkString(s string, o *optSet, opts []jettison.Option) bool {
	want := `"` + refEscape(s, o) + `"`
	var got outcome
	if c.chance(4) {
		dst, old, _ := c.randDst()
		got = try(func() ([]byte, error) { return jettison.AppendOpts(dst, s, opts...) })
		if got.ok() {
			got.out = got.out[len(old):]
		}
	} else {
		got = try(func() ([]byte, error) { return jettison.MarshalOpts(s, opts...) })
	}
	c.evals++
	if !got.ok() || string(got.out) != want {
		c.desc = fmt.Sprintf("string %s options %v", clip(fmt.Sprintf("%q", s), 3000), o)
		c.fail("escaping-differs", "%s", diff(got, outcome{out: []byte(want)}))
		return false
	}
	return true
}

// decodes reports whether a JSON string decodes to the text of s.
func decodes(out []byte, s string) bool {
	var back string
	if json.Unmarshal(out, &back) != nil {
		return false
	}
	j := 0
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		w := s[i : i+n]
		if r == utf8.RuneError && n == 1 {
			w = "\ufffd"
		}
		if j+len(w) > len(back) || back[j:j+len(w)] != w {
			return false
		}
		j += len(w)
		i += n
	}
	return j == len(back)
}

func runC16(c *caseCtx) {
	combo := c.intn(8)
	o := defaultOpts()
	o.noHTML, o.noUTF8, o.noStrEsc = combo&1 != 0, combo&2 != 0, combo&4 != 0 && c.chance(2)
	opts := o.options()
	try1 := func(s string) bool {
		if !c.checkString(s, o, opts) {
			return false
		}
		if !o.noStrEsc && !o.noUTF8 {
			got := tryLib(s, append([]jettison.Option{nil}, opts...))
			if !got.ok() || !decodes(got.out, s) {
				c.desc = fmt.Sprintf("string %q options %v", s, o)
				c.fail("decodes-differently", "%v does not decode to the string", got)
				return false
			}
		}
		return true
	}
	switch c.intn(7) {
	case 0:
		// All strings of two bytes with a given first byte.
		b := byte(c.index / 7)
		for x := 0; x < 256; x++ {
			if !try1(string([]byte{b, byte(x)})) {
				return
			}
		}
		seen("2byte", b, combo)
		count("two_byte_prefixes", 1)
	case 1:
		// A block of runes, alone and embedded.
		blk := c.intn(0x110000 / 128)
		if c.chance(4) {
			blk = []int{0, 1, 15, 16, 0x2000 / 128, 0xd780 / 128, 0xd800 / 128, 0xdf80 / 128, 0xe000 / 128, 0xff80 / 128, 0x10000 / 128, 0x10ff80 / 128}[c.intn(12)]
		}
		for i := 0; i < 128; i++ {
			r := rune(blk*128 + i)
			s := string(r)
			if !try1(s) || !try1("a"+s+"b") {
				return
			}
		}
		seen("block", blk, combo)
		count("rune_blocks", 1)
	case 2:
		// Truncated, overlong and otherwise broken sequences.
		for i := 0; i < 60; i++ {
			lead := []byte{0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xe2, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff, 0x80, 0xbf}[c.intn(19)]
			s := []byte{lead}
			for k := c.intn(4); k > 0; k-- {
				s = append(s, []byte{0x80, 0x9f, 0xa0, 0xa8, 0xa9, 0xbf, 0x8f, 0x90, 0x41, 0x22, 0xc3, 0xe2, 0x80}[c.intn(13)])
			}
			str := c.word() + string(s)
			if c.bool() {
				str += c.word()
			}
			if !try1(str) {
				return
			}
			seen(str, combo)
		}
		count("broken_sequences", 60)
	case 3:
		// One special character at every offset of a run.
		sp := nastyPieces[c.intn(len(nastyPieces))]
		n := c.intn(80)
		if c.chance(4) {
			n = c.sizeHint(600)
		}
		run := bytes.Repeat([]byte{byte('a' + c.intn(26))}, n)
		for i := 0; i <= n; i++ {
			s := string(run[:i]) + sp + string(run[i:])
			if !c.checkString(s, o, opts) {
				return
			}
		}
		seen("offsets", sp, n, combo)
		count("offset_sweeps", 1)
	case 4:
		// Two special characters in a row or apart.
		a := nastyPieces[c.intn(len(nastyPieces))]
		pad := c.word()
		for _, b := range nastyPieces {
			if !try1(a+b) || !try1(a+pad+b+a) {
				return
			}
		}
		seen("pairs", a, combo)
		count("pair_sweeps", 1)
	default:
		for i := 0; i < 12; i++ {
			s := c.str()
			if !try1(s) {
				return
			}
			seen(s, combo)
		}
	}
	s := c.str()
	sample(func() string { return fmt.Sprintf("%q -> %v", clip(s, 200), tryLib(s, nil)) })
	o2 := *o
	o2.arrString, o2.rawBytes = c.bool(), c.bool()
	if o2.noStrEsc && c.bool() {
		o2.noStrEsc = false
	}
	for _, v := range []interface{}{s, []byte(s), RawText(s), MyString(s), struct {
		A string  `json:",string"`
		B *string `json:",string"`
		C MyString
		D RawText
		E []byte
		F MyString `json:",string,omitempty"`
	}{s, &s, MyString(s), RawText(s), []byte(s), MyString(s)}} {
		if c.chance(3) && !c.positions("string", reflect.ValueOf(v), &o2, 1) {
			return
		}
	}
	if c.chance(3) {
		a := reflect.New(reflect.ArrayOf(len(s), reflect.TypeOf(byte(0)))).Elem()
		reflect.Copy(a, reflect.ValueOf([]byte(s)))
		if !c.positions("byte-array", a, &o2, 1) {
			return
		}
	}
	if c.chance(2) {
		for _, k := range []interface{}{s, MyString(s), RawText(s), BothStr(s)} {
			if !c.mapKey("string", reflect.ValueOf(k), &o2) {
				return
			}
		}
	}
}

// ---- C17 ----

type quotedNums struct {
	A int         `json:",string"`
	B float64     `json:",string"`
	C float32     `json:",string"`
	D uint64      `json:",string"`
	E json.Number `json:",string"`
	F int8        `json:",string"`
	G *float64    `json:",string"`
	H uintptr     `json:",string"`
}

func (c *caseCtx) checkNum(v interface{}, want string) bool {
	var got outcome
	buf := [40]byte{'x'}
	if c.bool() {
		got = try(func() ([]byte, error) { return jettison.Append(buf[:1:1+c.intn(39)], v) })
		if got.ok() {
			got.out = got.out[1:]
		}
	} else {
		got = tryLib(v, nil)
	}
	c.evals++
	if !got.ok() || string(got.out) != want {
		c.desc = fmt.Sprintf("%T %v", v, v)
		c.fail("number-differs", "%s", diff(got, outcome{out: []byte(want)}))
		return false
	}
	return true
}

func (c *caseCtx) checkF64(f float64) bool {
	want, err := json.Marshal(f)
	if err != nil {
		if got := tryLib(f, nil); got.err == nil {
			c.fail("float-accepted", "%v was encoded as %v", f, got)
			return false
		}
		return true
	}
	seen("f64", math.Float64bits(f))
	if !c.checkNum(f, string(want)) {
		return false
	}
	back, perr := strconv.ParseFloat(string(want), 64)
	if perr != nil || math.Float64bits(back) != math.Float64bits(f) {
		c.fail("float-roundtrip", "%v -> %s", f, want)
		return false
	}
	a := math.Abs(f)
	if hasE := bytes.IndexByte(want, 'e') >= 0; hasE != (a != 0 && (a < 1e-6 || a >= 1e21)) {
		c.fail("float-exponent", "%v -> %s", f, want)
		return false
	}
	return true
}

func (c *caseCtx) checkF32(f float32) bool {
	want, err := json.Marshal(f)
	if err != nil {
		if got := tryLib(f, nil); got.err == nil {
			c.fail("float-accepted", "%v was encoded as %v", f, got)
			return false
		}
		return true
	}
	seen("f32", math.Float32bits(f))
	return c.checkNum(f, string(want))
}

const numAlpha = "0129+-.eE x"

func runC17(c *caseCtx) {
	switch c.intn(8) {
	case 0:
		// Small widths and windows of the larger ones.
		start := c.int64v()
		if c.chance(4) {
			start = int64(c.intn(1<<17)) - 1<<16
		}
		for i := int64(-40); i <= 40; i++ {
			n := start + i
			s, u := strconv.FormatInt(n, 10), strconv.FormatUint(uint64(n), 10)
			if !c.checkNum(n, s) || !c.checkNum(uint64(n), u) || !c.checkNum(int(n), s) || !c.checkNum(uintptr(n), u) || !c.checkNum(uint(n), u) ||
				!c.checkNum(int32(n), strconv.FormatInt(int64(int32(n)), 10)) || !c.checkNum(uint32(n), strconv.FormatUint(uint64(uint32(n)), 10)) ||
				!c.checkNum(int16(n), strconv.FormatInt(int64(int16(n)), 10)) || !c.checkNum(uint16(n), strconv.FormatUint(uint64(uint16(n)), 10)) ||
				!c.checkNum(int8(n), strconv.FormatInt(int64(int8(n)), 10)) || !c.checkNum(uint8(n), strconv.FormatUint(uint64(uint8(n)), 10)) {
				return
			}
			seen("int", n)
		}
		count("integers", 81*11)
	case 1:
		for i := 0; i < 60; i++ {
			n := c.int64v()
			if !c.checkNum(n, strconv.FormatInt(n, 10)) || !c.checkNum(uint64(n), strconv.FormatUint(uint64(n), 10)) {
				return
			}
			seen("int", n)
		}
	case 2, 3:
		for i := 0; i < 60; i++ {
			if !c.checkF64(c.float64v(true)) {
				return
			}
		}
		count("floats", 60)
	case 4:
		for i := 0; i < 60; i++ {
			if !c.checkF32(c.float32v(true)) {
				return
			}
		}
		count("floats", 60)
	case 5:
		// Consecutive floats.
		f := c.float64v(false)
		b := math.Float64bits(f)
		g := c.float32v(false)
		b32 := math.Float32bits(g)
		for i := 0; i < 40; i++ {
			if !c.checkF64(math.Float64frombits(b+uint64(i))) || !c.checkF32(math.Float32frombits(b32+uint32(i))) {
				return
			}
		}
		for e := -330; e <= 308; e += 1 + c.intn(30) {
			x, _ := strconv.ParseFloat(fmt.Sprintf("%de%d", 1+c.intn(99), e), 64)
			if !c.checkF64(x) || !c.checkF64(-x) || !c.checkF32(float32(x)) {
				return
			}
		}
		count("floats", 120)
	case 6:
		// All short texts with a given prefix, as json.Number.
		pre := make([]byte, 2)
		k := c.index % 121
		pre[0], pre[1] = numAlpha[k%11], numAlpha[k/11]
		if c.chance(3) {
			pre = pre[:1]
		}
		s := append([]byte(nil), pre...)
		if c.chance(3) {
			s = append(s, c.number(false)...)
		}
		n := len(s)
		s = append(s, 0, 0)
		for i := 0; i < 11; i++ {
			for j := 0; j < 12; j++ {
				s[n] = numAlpha[i]
				t := s[:n+1]
				if j < 11 {
					s[n+1] = numAlpha[j]
					t = s
				}
				if !c.checkNumber(string(t)) {
					return
				}
			}
		}
		count("number_texts", 132)
	default:
		for i := 0; i < 60; i++ {
			if !c.checkNumber(c.number(i%2 == 0)) {
				return
			}
		}
		// A valid number with one byte changed or added.
		for i := 0; i < 60; i++ {
			b := []byte(c.number(false))
			if len(b) == 0 {
				continue
			}
			if c.bool() {
				b[c.intn(len(b))] = byte(c.u64())
			} else {
				at := c.intn(len(b) + 1)
				b = append(b[:at], append([]byte{" \n\x00.-+eE0_xX"[c.intn(12)]}, b[at:]...)...)
			}
			if !c.checkNumber(string(b)) {
				return
			}
		}
		count("number_texts", 120)
	}
	o := c.randOpts(optMode{density: 4, escapeHatches: true})
	vals := []interface{}{c.int64v(), uint64(c.u64()), c.float64v(c.chance(8)), c.float32v(c.chance(8)), json.Number(c.number(c.chance(8))), int8(c.u64()), uintptr(c.u64()), MyF32(c.float32v(false)), MyNum(c.word())}
	if !c.positions("number", reflect.ValueOf(vals[c.intn(len(vals))]), o, 2) {
		return
	}
	f := c.float64v(false)
	q := quotedNums{int(c.int64v()), c.float64v(c.chance(20)), c.float32v(false), c.u64(), json.Number(c.number(c.chance(20))), int8(c.u64()), &f, uintptr(c.u64())}
	if c.chance(8) {
		q.G = nil
	}
	if !c.positions("quoted-number", reflect.ValueOf(q), o, 1) {
		return
	}
	if c.chance(3) {
		kv := []interface{}{c.int64v(), uint64(c.u64()), int8(c.u64()), uintptr(c.u64()), MyInt(c.int64v()), uint16(c.u64()), json.Number(c.number(true)), JSONKeyInt(c.int64v()), AppendKeyInt(c.int64v())}
		if !c.mapKey("number", reflect.ValueOf(kv[c.intn(len(kv))]), o) {
			return
		}
	}
	sample(func() string { return fmt.Sprintf("%+v", q) })
}

func (c *caseCtx) checkNumber(s string) bool {
	n := json.Number(s)
	got := tryLib(n, nil)
	c.evals++
	want := s
	if s == "" {
		want = "0"
	}
	valid := numberGrammar.MatchString(want)
	if valid {
		if !got.ok() || string(got.out) != want {
			c.fail("json-number-refused", "json.Number(%q) -> %v", s, got)
			return false
		}
		seen("num", s)
	} else if got.err == nil {
		c.fail("json-number-accepted", "json.Number(%q) -> %v, expected an error", s, got)
		return false
	}
	raw := tryLib(n, []jettison.Option{jettison.NoNumberValidation()})
	if !raw.ok() || string(raw.out) != want {
		c.fail("json-number-no-validation", "json.Number(%q) -> %v", s, raw)
		return false
	}
	return true
}

var _ = context.TODO
