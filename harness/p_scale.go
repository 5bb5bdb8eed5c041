package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"sync"

	"github.com/wI2L/jettison"
)

// Workloads in which one dimension of a value, of a type or of the history is
// large: the places where a counter, an offset or a table of a usual size
// ends.

// A scaleDef says which large values a property gets, how often, and what
// they are compared with.
type scaleDef struct {
	every  int // one in so many cases: odd, so that every process gets some
	kinds  string
	opts   *optMode
	oracle func(c *caseCtx, b *bigValue, o *optSet)
}

// Kinds: s slice, a array, m map, y sync.Map, t text, b bytes, w wide struct,
// n long names, p pointers, d nested types, e embedded structs, o omitempty,
// u number, f fragment, c marshalers.
var scaleDefs = map[string]*scaleDef{
	"C01": {every: 801, kinds: "ssaammttbbwwnpdeooufc", oracle: scaleStd},
	"C02": {every: 701, kinds: "ssaammyttbbwwnpdeooufc", opts: &optMode{lists: true, unsorted: true}, oracle: scaleRef},
	"C03": {every: 3001, kinds: "wwwneeep", oracle: scaleStd},
	"C04": {every: 301, kinds: "ssaammyttbbwwnpdeooufc", opts: &optMode{lists: true}, oracle: scaleEntry},
	"C09": {every: 501, kinds: "m", opts: &optMode{unsorted: true, density: 3}, oracle: scaleRef},
	"C10": {every: 501, kinds: "y", opts: &optMode{unsorted: true, density: 3}, oracle: scaleRef},
	"C11": {every: 1001, kinds: "c", oracle: scaleCalls},
	"C12": {every: 401, kinds: "f", opts: &optMode{density: 2}, oracle: func(c *caseCtx, b *bigValue, o *optSet) {
		if n := b.n; c.checkFragment(c.bigFragment(n), o, c.intn(11)) {
			maxCount("largest_fragment", n)
		}
	}},
	"C13": {every: 2001, kinds: "saamyd", oracle: scaleFault},
	"C16": {every: 401, kinds: "t", opts: &optMode{density: 3}, oracle: scaleRef},
	"C17": {every: 601, kinds: "us", oracle: scaleStd},
	"C18": {every: 901, kinds: "wwwne", opts: &optMode{lists: true, density: 2}, oracle: scaleLists},
	"C19": {every: 2001, kinds: "oooow", oracle: scaleRef},
	"C20": {every: 1501, kinds: "bbbosam", opts: &optMode{density: 2}, oracle: scaleRef},
	"C21": {every: 701, kinds: "ssaammyttbbwwnpdeooufc", opts: &optMode{lists: true, unsorted: true}, oracle: scaleRef},
}

type bigValue struct {
	v    interface{}
	kind byte
	n    int
	std  bool // encoding/json encodes it in the same way
}

// scaleSize returns a size near one where something may wrap around or fill
// up.
func (r *rng) scaleSize(max int) int {
	for {
		base := []int{32, 64, 100, 128, 256, 256, 500, 512, 1000, 1024, 2048, 4096, 4096, 8192, 10000, 16384, 32768, 65536, 65536, 100000, 131072}
		n := base[r.intn(len(base))]
		if n > 40000 && r.chance(2) {
			continue
		}
		switch r.intn(6) {
		case 0, 1:
		case 2:
			n += r.intn(n)
		case 3:
			n *= 1 + r.intn(3)
		default:
			n += r.intn(7) - 3
		}
		if n <= max {
			return n
		}
	}
}

// plainText marshals to itself.
type plainText string

func (x plainText) MarshalText() ([]byte, error) { return []byte(x), nil }

type bigPair struct {
	A int
	B string `json:",omitempty"`
}

var bigElems = []reflect.Type{
	tof((*int)(nil)), tof((*int8)(nil)), tof((*uint16)(nil)), tof((*int64)(nil)), tof((*uint8)(nil)), tof((*bool)(nil)), tof((*string)(nil)), tof((*float64)(nil)),
	tof((**int)(nil)), tof((*interface{})(nil)), tof((*bigPair)(nil)), tof((**bigPair)(nil)), tof((*[]int)(nil)), tof((*[2]bool)(nil)), tof((*map[string]int)(nil)),
	tof((*struct{})(nil)), tof((*[]byte)(nil)), tof((*JSONInt)(nil)), tof((*TextStr)(nil)), tof((*MyInt)(nil)), tof((*[3]byte)(nil)), tof((*json.Number)(nil)),
}

// fillMany fills the elements of l: some with generated values, the others
// with the same ones again, except that numbers tell the position.
func (g *vgen) fillMany(l reflect.Value, n int) {
	k := 1 + g.intn(40)
	for i := 0; i < n; i++ {
		e := l.Index(i)
		switch {
		case e.Kind() == reflect.Int || e.Kind() == reflect.Int64:
			e.SetInt(int64(i))
		case e.Kind() == reflect.Uint16:
			e.SetUint(uint64(uint16(i)))
		case i < k:
			g.budget, g.maxDepth = 6, 2
			g.fill(e, 0)
		default:
			e.Set(l.Index(i % k))
		}
	}
}

func (c *caseCtx) bigValue(kinds string) *bigValue {
	g := newVgen(c.rng)
	g.std, g.small = true, true
	b := &bigValue{kind: kinds[c.intn(len(kinds))], std: true}
	var v reflect.Value
	switch b.kind {
	case 's':
		b.n = c.scaleSize(300000)
		v = reflect.MakeSlice(reflect.SliceOf(bigElems[c.intn(len(bigElems))]), b.n, b.n)
		g.fillMany(v, b.n)
	case 'a':
		b.n = c.scaleSize(70000)
		v = reflect.New(reflect.ArrayOf(b.n, bigElems[c.intn(10)])).Elem()
		g.fillMany(v, b.n)
	case 'm':
		b.n = c.scaleSize(140000)
		v = g.bigMap(b.n)
	case 'y':
		b.n = c.scaleSize(100000)
		m := new(sync.Map)
		it := g.bigMap(b.n).MapRange()
		for it.Next() {
			m.Store(it.Key().Interface(), it.Value().Interface())
		}
		v = reflect.ValueOf(m)
		b.std = false
	case 't':
		b.n = c.scaleSize(400000)
		v = reflect.ValueOf(c.bigText(b.n))
		switch c.intn(5) {
		case 0:
			v = reflect.ValueOf(MyString(v.String()))
		case 1:
			v = reflect.ValueOf(plainText(v.String()))
		case 2:
			v = reflect.ValueOf(map[string]int{v.String(): 1, v.String()[:b.n/2]: 2})
		case 3:
			v = reflect.ValueOf(map[plainText]bool{plainText(v.String()): true})
		}
	case 'b':
		b.n = c.scaleSize(400000)
		t := c.bigText(b.n)
		v = reflect.ValueOf([]byte(t))
		switch c.intn(3) {
		case 0:
			v = reflect.ValueOf(MyBytes(t))
		case 1:
			if b.n > 70000 {
				b.n = c.scaleSize(70000)
			}
			v = reflect.New(reflect.ArrayOf(b.n, tof((*uint8)(nil)))).Elem()
			reflect.Copy(v, reflect.ValueOf([]byte(t)))
		}
	case 'w':
		b.n = c.scaleSize(1100)
		v = reflect.New(g.wideType(b.n)).Elem()
		g.budget = 300
		g.fill(v, 0)
	case 'n':
		b.n = c.scaleSize(70000)
		name := strings.Repeat("n", b.n-1) + string(rune('a'+c.intn(26)))
		if c.bool() {
			name = strings.Repeat("<é", b.n/3) // two bytes and one
		}
		v = reflect.New(reflect.StructOf([]reflect.StructField{
			{Name: "A", Type: tof((*int)(nil))},
			{Name: "B", Type: bigElems[c.intn(len(bigElems))], Tag: reflect.StructTag(`json:"` + name + `"`)},
			{Name: "C", Type: tof((*int)(nil)), Tag: reflect.StructTag(`json:"` + name[:len(name)-3] + `,omitempty"`)},
		})).Elem()
		g.fill(v, 0)
	case 'p':
		b.n = 2 + c.intn(70)
		t := bigElems[c.intn(len(bigElems))]
		v = reflect.New(t).Elem()
		g.budget = 20
		g.fill(v, 0)
		for i, null := 0, c.intn(3*b.n); i < b.n; i++ {
			p := reflect.New(v.Type())
			p.Elem().Set(v)
			if i == null {
				p = reflect.Zero(p.Type())
			}
			v = p
		}
	case 'd':
		b.n = 2 + c.intn(70)
		v = reflect.ValueOf(c.intn(1000))
		mix := c.intn(5)
		for i := 0; i < b.n; i++ {
			k := mix
			if mix == 4 {
				k = c.intn(4)
			}
			switch k {
			case 0:
				l := reflect.MakeSlice(reflect.SliceOf(v.Type()), 1, 1)
				l.Index(0).Set(v)
				v = l
			case 1:
				l := reflect.New(reflect.ArrayOf(1, v.Type())).Elem()
				l.Index(0).Set(v)
				v = l
			case 2:
				m := reflect.MakeMap(reflect.MapOf(tof((*string)(nil)), v.Type()))
				m.SetMapIndex(reflect.ValueOf("k"), v)
				v = m
			default:
				s := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "F", Type: v.Type()}})).Elem()
				s.Field(0).Set(v)
				v = s
			}
		}
	case 'e':
		v = reflect.New(g.embeddedType(b)).Elem()
		g.budget = 300
		g.fill(v, 0)
	case 'o':
		// Fields that are not empty, however one counts.
		b.n = []int{256, 512, 1024, 65536, 65536, 131072, 1 << 20}[c.intn(7)]
		s := c.bigText(b.n)
		x := make([]struct{}, b.n)
		v = reflect.ValueOf(struct {
			S  string     `json:"s,omitempty"`
			B  []byte     `json:"b,omitempty"`
			X  []struct{} `json:"x,omitempty"`
			N  []struct{} `json:"n,omitnil"`
			I  int64      `json:"i,omitempty"`
			U  uint64     `json:"u,omitempty"`
			F  float64    `json:"f,omitempty"`
			F2 float32    `json:"f2,omitempty"`
			M  MyString   `json:"m,omitempty"`
			I3 int32      `json:"i3,omitempty"`
			U2 uint16     `json:"u2,omitempty"`
			P  uintptr    `json:"p,omitempty"`
		}{S: s, B: []byte(s), X: x, N: x[:256], I: int64(1) << uint(c.intn(63)), U: 1 << uint(c.intn(64)), F: 5e-324, F2: 1e-45,
			M: MyString(s[:256]), I3: 1 << uint(c.intn(31)), U2: 1 << uint(c.intn(16)), P: 1 << uint(c.intn(64))})
		if c.bool() {
			m := reflect.MakeMap(reflect.MapOf(tof((*int)(nil)), tof((*bool)(nil))))
			for i := 0; i < b.n && i < 65536; i++ {
				m.SetMapIndex(reflect.ValueOf(i), reflect.ValueOf(true))
			}
			st := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "M", Type: m.Type(), Tag: `json:",omitempty"`}})).Elem()
			st.Field(0).Set(m)
			v = st
		}
		b.std = v.NumField() == 1
	case 'u':
		b.n = c.scaleSize(70000)
		d := make([]byte, b.n)
		for i := range d {
			d[i] = byte('0' + c.intn(10))
		}
		d[0] = '1'
		if b.n > 40 {
			switch c.intn(3) {
			case 0:
				d[b.n/2] = '.'
			case 1:
				d[b.n-5] = 'e'
				d[b.n-4] = "+-0123456789"[c.intn(12)]
			}
		}
		v = reflect.ValueOf(json.Number(d))
		if c.chance(3) {
			v = reflect.ValueOf(map[json.Number]json.Number{json.Number(d): "1"})
		}
	case 'f':
		f := c.bigFragment(c.scaleSize(200000))
		v = reflect.ValueOf(json.RawMessage(f))
		b.n = len(f)
	case 'c':
		b.n = c.scaleSize(140000)
		t := []reflect.Type{tof((*JSONInt)(nil)), tof((*JSONPtr)(nil)), tof((*TextStr)(nil)), tof((**TextPtr)(nil))}[c.intn(4)]
		v = reflect.MakeSlice(reflect.SliceOf(t), b.n, b.n)
		g.fillMany(v, b.n)
	}
	if v.Kind() != reflect.Map && c.chance(3) {
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		v = p
	}
	if c.chance(3) {
		v = reflect.ValueOf([]interface{}{c.intn(9), v.Interface()})
	}
	b.v = v.Interface()
	count("large_"+string(b.kind), 1)
	maxCount("largest_"+string(b.kind), b.n)
	return b
}

// bigText returns n bytes, most of them plain.
func (r *rng) bigText(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz0123456789 .-_"[(i*7+i/40)%40]
	}
	if r.chance(3) { // few plain ones
		p := []string{"é", "世", "😀", "aé", "a世b", "\u2028", "<", "\"", "\\", "\xff", "\n", "\x00é", "\xe2\x80", "é\xc3", "\x7f"}[r.intn(15)]
		for i := r.intn(4); i < n; i += len(p) {
			copy(b[i:], p)
		}
	}
	for k := 1 + r.intn(20); k > 0; k-- {
		p := nastyPieces[r.intn(len(nastyPieces))]
		at := r.intn(n)
		if r.bool() { // near a boundary, or near the end
			at = 1<<uint(r.intn(19)) - 1 - r.intn(len(p)+1)
			if at < 0 || at > n || r.chance(4) {
				at = n - len(p) - r.intn(3)
			}
		}
		if at >= 0 && at+len(p) <= n {
			copy(b[at:], p)
		}
	}
	return string(b)
}

// bigFragment returns a JSON text of about n bytes, in which one thing is
// large.
func (r *rng) bigFragment(n int) string {
	var sb strings.Builder
	spaces := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = " \n\r\t  "[i%6]
		}
		return string(b)
	}
	around := func(s string) string {
		return "{ " + r.jsonString() + " :" + s + ` , "<\\" : [ ` + r.jsonString() + " , " + r.jsonText(2) + " ] }" + r.ws()
	}
	switch r.intn(6) {
	case 0: // a string
		t := []byte(r.bigText(n))
		for i, c := range t {
			if c < ' ' || c == '"' || c == '\\' {
				t[i] = " <>&/x"[i%6]
			}
		}
		for k := r.intn(20); k > 0; k-- {
			i := r.intn(n)
			if r.bool() {
				i = n - 1 - r.intn(20)
			}
			if e := []string{`\"`, `\\`, `\n`, `\u00e9`, `\ud83d\ude00`, `\/`}[r.intn(6)]; i+len(e) <= n && !bytes.Contains(t[:i], []byte(`\`)) && !bytes.Contains(t[i:i+len(e)], []byte(`\`)) {
				copy(t[i:], e)
			}
		}
		return around(`"` + string(t) + `"`)
	case 1: // white space
		if r.bool() {
			return spaces(n) + around("1") + spaces(r.scaleSize(n+40))
		}
		return around(spaces(n) + "1" + spaces(r.intn(300)))
	case 2: // depth
		if n > 9990 {
			n = 9990 - r.intn(3)
		}
		open, end := "[ ", "]"
		if r.bool() {
			open, end = `{"a" : `, "} "
		}
		return around(strings.Repeat(open, n-3) + r.jsonText(0) + strings.Repeat(end, n-3))
	case 3: // members
		sb.WriteByte('{')
		for i := 0; sb.Len() < n; i++ {
			if i > 0 {
				sb.WriteString(" ,")
			}
			sb.WriteString(r.jsonString() + ":" + r.ws() + strconv.Itoa(i))
		}
		sb.WriteByte('}')
		return sb.String()
	case 4: // something that breaks it, near the end
		f := around(`"` + strings.Repeat("a b", n/3) + `"`)
		i := len(f) - 1 - r.intn(30)
		return f[:i] + string(fragAlpha[r.intn(len(fragAlpha))]) + f[i+r.intn(2):]
	}
	sb.WriteByte('[')
	for i := 0; sb.Len() < n; i++ {
		if i > 0 {
			sb.WriteString(",")
		}
		sb.WriteString(r.ws())
		switch r.intn(5) {
		case 0:
			sb.WriteString(r.jsonString())
		case 1:
			sb.WriteString(`{"a":` + strings.Repeat(" ", r.intn(100)) + `"b\\"}`)
		default:
			sb.WriteString(strconv.Itoa(i))
		}
	}
	sb.WriteByte(']')
	return sb.String()
}

func (g *vgen) bigMap(n int) reflect.Value {
	put := func(m interface{}, f func(v reflect.Value, i int)) reflect.Value {
		v := reflect.ValueOf(m)
		for i := 0; i < n; i++ {
			f(v, i)
		}
		return v
	}
	long := ""
	if n < 2000 {
		long = strings.Repeat("k", g.scaleSize(600))
	}
	switch g.intn(6) {
	case 0:
		m := map[int]int{}
		return put(m, func(_ reflect.Value, i int) { m[i-n/2] = i })
	case 1:
		m := map[string]string{}
		return put(m, func(_ reflect.Value, i int) { m[strconv.Itoa(i)+long] = strconv.Itoa(i) })
	case 2:
		m := map[uint64]bool{}
		return put(m, func(_ reflect.Value, i int) { m[uint64(i)*0x9e3779b97f4a7c15] = i&1 == 0 })
	case 3:
		m := map[RecKey]*int{}
		return put(m, func(_ reflect.Value, i int) {
			x := i
			m[RecKey{"<" + strconv.Itoa(i)}] = &x
		})
	case 4:
		m := map[interface{ MarshalText() ([]byte, error) }]interface{}{}
		if g.std {
			m := map[string]interface{}{}
			return put(m, func(_ reflect.Value, i int) { m["\u2028"+strconv.Itoa(i)] = []interface{}{i, nil} })
		}
		return put(m, func(_ reflect.Value, i int) { m[RecKey{strconv.Itoa(i)}] = i })
	}
	m := map[MyString][]int{}
	return put(m, func(_ reflect.Value, i int) { m[MyString(long+strconv.Itoa(i))] = []int{i} })
}

// wideType returns a struct type of n fields.
func (g *vgen) wideType(n int) reflect.Type {
	fs := make([]reflect.StructField, n)
	for i := range fs {
		fs[i] = reflect.StructField{Name: "F" + strconv.Itoa(i), Type: bigElems[(i*7+g.intn(2))%len(bigElems)]}
		switch g.intn(12) {
		case 0:
			fs[i].Tag = `json:",omitempty"`
		case 1:
			fs[i].Tag = reflect.StructTag(fmt.Sprintf(`json:"n<%d"`, i))
		case 2: // the name of another one
			fs[i].Tag = reflect.StructTag(fmt.Sprintf(`json:"F%d"`, g.intn(n)))
		case 3:
			fs[i].Tag = `json:",string"`
		}
	}
	return reflect.StructOf(fs)
}

// embeddedType returns a type with many embedded structs, in each other or
// next to each other.
func (g *vgen) embeddedType(b *bigValue) reflect.Type {
	own := func(i int) reflect.StructField {
		f := reflect.StructField{Name: "F" + strconv.Itoa(i), Type: bigElems[g.intn(11)]}
		if g.chance(6) {
			f.Name = "F" + strconv.Itoa(g.intn(b.n)) // may be hidden
		}
		if g.chance(6) {
			f.Tag = reflect.StructTag(fmt.Sprintf(`json:"F%d"`, g.intn(b.n)))
		}
		return f
	}
	if g.bool() {
		b.n = 2 + g.intn(40)
		t := reflect.StructOf([]reflect.StructField{own(0)})
		for i := 1; i < b.n; i++ {
			e := reflect.StructField{Name: "E" + strconv.Itoa(i), Type: t, Anonymous: true}
			if g.chance(3) {
				e.Type = reflect.PtrTo(t)
			}
			fs := []reflect.StructField{e}
			if !g.chance(3) {
				fs = append(fs, own(i))
			}
			if g.bool() && len(fs) == 2 {
				fs[0], fs[1] = fs[1], fs[0]
			}
			t = reflect.StructOf(fs)
		}
		return t
	}
	b.n = g.scaleSize(300)
	var fs []reflect.StructField
	for i := 0; i < b.n; i++ {
		a, c := own(2*i), own(2*i+1)
		sub := []reflect.StructField{a}
		if a.Name != c.Name {
			sub = append(sub, c)
		}
		e := reflect.StructField{Name: "E" + strconv.Itoa(i), Type: reflect.StructOf(sub), Anonymous: true}
		if g.chance(4) {
			e.Type = reflect.PtrTo(e.Type)
		}
		fs = append(fs, e)
	}
	return reflect.StructOf(fs)
}

func runScale(c *caseCtx, d *scaleDef) {
	b := c.bigValue(d.kinds)
	o := defaultOpts()
	if d.opts != nil {
		o = c.randOpts(*d.opts)
	}
	crumb("large value: kind %c, size %d, %T %v", b.kind, b.n, b.v, o)
	c.desc = fmt.Sprintf("large value: kind %c, size %d, a %s with options %v", b.kind, b.n, clip(reflect.TypeOf(b.v).String(), 2000), o)
	d.oracle(c, b, o)
}

func scaleStd(c *caseCtx, b *bigValue, o *optSet) {
	want, ok := outcome{}, false
	got := tryLib(b.v, nil)
	if b.std {
		want = tryStd(b.v)
		ok = sameAsStd(got, want, b.v)
	} else {
		want, ok = eqRef(got, b.v, o)
	}
	c.evals++
	if !ok {
		c.fail("large-value-differs", "%s", diff(got, want))
		return
	}
	seen("large", string(b.kind), b.n, len(got.out))
}

func scaleRef(c *caseCtx, b *bigValue, o *optSet) {
	got := tryLib(b.v, o.options())
	want, ok := eqRef(got, b.v, o)
	c.evals++
	if !ok {
		c.fail("large-value-differs", "%s", diff(got, want))
		return
	}
	seen("large", string(b.kind), b.n, len(got.out), o.String())
}

// scaleLists filters by long lists of the names that the type has.
func scaleLists(c *caseCtx, b *bigValue, o *optSet) {
	names := func() []string {
		l := make([]string, 0, 64)
		off, step := c.intn(3), 1+c.intn(3)
		for i := off; i < b.n*2+2; i += step {
			l = append(l, "F"+strconv.Itoa(i))
		}
		if c.bool() {
			l = append(l, "A", "n<4")
		}
		return l
	}
	if c.bool() {
		o.hasDeny, o.deny = true, names()
	}
	if !o.hasDeny || c.bool() {
		o.hasAllow, o.allow = true, names()
	}
	scaleRef(c, b, o)
}

// scaleEntry compares the entry points, with large destinations.
func scaleEntry(c *caseCtx, b *bigValue, o *optSet) {
	opts := o.options()
	want := tryLib(b.v, append([]jettison.Option{nil}, opts...))
	n := c.scaleSize(400000)
	dst := make([]byte, n, n+c.intn(200))
	for i := range dst {
		dst[i] = byte(i * 31)
	}
	if c.bool() && want.ok() { // room for all but a few bytes
		d := make([]byte, n, n+len(want.out)+c.intn(5)-2)
		copy(d, dst)
		dst = d
	}
	old := string(dst)
	got := try(func() ([]byte, error) { return jettison.AppendOpts(dst, b.v, opts...) })
	c.evals += 2
	if got.class() != want.class() {
		c.fail("large-AppendOpts-differs", "AppendOpts: %v\nMarshalOpts: %v", got, want)
		return
	}
	if !got.ok() {
		return
	}
	if !bytes.HasPrefix(got.out, []byte(old)) || string(dst) != old {
		c.fail("large-destination-changed", "the %d bytes in the destination changed", n)
		return
	}
	if !bytes.Equal(got.out[n:], want.out) {
		c.fail("large-AppendOpts-differs", "%s", diff(outcome{out: got.out[n:]}, want))
		return
	}
	if o.isDefault() {
		m := tryLib(b.v, nil)
		if !sameOutcome(m, want) {
			c.fail("large-Marshal-differs", "%s", diff(m, want))
		}
	}
	seen("large", string(b.kind), b.n, n, len(got.out))
}

// nthCall counts its calls by the number it holds.
type (
	nthJSON   int
	nthText   int
	nthAppend int
	nthCtx    int
	nthPtr    struct{ I int }
)

var (
	nthCalls  []int
	nthWant   context.Context
	nthWrong  int
	nthKey    struct{ x int }
	nthDepths = []int{3, 15, 17, 31, 33, 63, 65, 100, 127, 129, 255, 257, 300, 511, 600, 999, 1001, 1100, 2001}
)

func (x nthJSON) MarshalJSON() ([]byte, error) {
	nthCalls[x]++
	return strconv.AppendInt(nil, int64(x), 10), nil
}
func (x nthText) MarshalText() ([]byte, error) {
	nthCalls[x]++
	return strconv.AppendInt(nil, int64(x), 10), nil
}
func (x nthAppend) AppendJSON(b []byte) ([]byte, error) {
	nthCalls[x]++
	return strconv.AppendInt(b, int64(x), 10), nil
}
func (x nthCtx) AppendJSONContext(ctx context.Context, b []byte) ([]byte, error) {
	nthCalls[x]++
	if nthWant != nil && (ctx != nthWant || ctx.Value(&nthKey) != int(42)) {
		nthWrong++
	}
	return strconv.AppendInt(b, int64(x), 10), nil
}
func (x *nthPtr) MarshalJSON() ([]byte, error) {
	nthCalls[x.I]++
	return strconv.AppendInt(nil, int64(x.I), 10), nil
}

// scaleCalls encodes many values with a method, each of which must be called
// once.
func scaleCalls(c *caseCtx, b *bigValue, o *optSet) {
	n := c.scaleSize(140000)
	nthCalls = make([]int, n)
	var v interface{}
	quote := ""
	k := c.intn(10)
	var opts []jettison.Option
	nthWant, nthWrong = nil, 0
	if c.bool() {
		nthWant = context.WithValue(context.Background(), &nthKey, 42)
		opts = append(opts, jettison.WithContext(nthWant))
	}
	mk := func(f func(i int) interface{}) {
		l := make([]interface{}, n)
		for i := range l {
			l[i] = f(i)
		}
		v = l
	}
	switch k {
	case 0:
		l := make([]nthJSON, n)
		for i := range l {
			l[i] = nthJSON(i)
		}
		v = l
	case 1:
		mk(func(i int) interface{} { return nthText(i) })
		quote = `"`
	case 2:
		l := make([]nthAppend, n)
		for i := range l {
			l[i] = nthAppend(i)
		}
		v = l
	case 3:
		mk(func(i int) interface{} { return nthCtx(i) })
	case 4:
		l := make([]nthPtr, n)
		for i := range l {
			l[i].I = i
		}
		v = l
	case 5:
		l := make([]*nthPtr, n)
		for i := range l {
			l[i] = &nthPtr{i}
		}
		v = l
	case 8, 9:
		// Nested in each other, up to a depth.
		n = 2 * nthDepths[c.intn(len(nthDepths))]
		nthCalls = make([]int, n)
		next := -1
		num := func() int { next++; return next }
		v = nthCtx(num())
		mix := c.intn(6)
		for next < n-4 {
			j := mix
			if mix == 5 {
				j = c.intn(5)
			}
			var a interface{}
			switch c.intn(3) {
			case 0:
				a = nthCtx(num())
			case 1:
				a = nthAppend(num())
			default:
				a = nthJSON(num())
			}
			switch j {
			case 0:
				v = map[string]interface{}{"a": a, "b": v}
			case 1:
				v = []interface{}{a, v, nthText(num())}
			case 2:
				w := [2]interface{}{v, a}
				v = &w
			case 3:
				v = struct {
					A interface{} `json:",omitempty"`
					V interface{}
					P *nthPtr
				}{a, v, &nthPtr{num()}}
			default:
				m := new(sync.Map)
				m.Store("k", v)
				m.Store(1, a)
				v = m
			}
		}
		n = next + 1
	case 6:
		m := map[nthText]nthText{}
		for i := 0; i < n/2; i++ {
			m[nthText(i)] = nthText(i + n/2)
		}
		v = m
	default:
		m := new(sync.Map)
		for i := 0; i < n/2; i++ {
			m.Store(nthText(i), nthJSON(i+n/2))
		}
		v = m
	}
	used := n
	if k == 6 || k == 7 {
		used = n / 2 * 2
	}
	c.desc = fmt.Sprintf("%d values of a %T", n, v)
	crumb("%s", c.desc)
	got := tryLib(v, opts)
	c.evals++
	if !got.ok() {
		c.fail("large-call-failed", "%v", got)
		return
	}
	if nthWrong > 0 {
		c.fail("large-calls-context", "%d calls of AppendJSONContext had another context", nthWrong)
		return
	}
	for i, m := range nthCalls[:used] {
		if m != 1 {
			c.fail("large-calls-differ", "method of value %d of %d was called %d times", i, n, m)
			return
		}
	}
	if k < 6 {
		var w []byte
		for i := 0; i < n; i++ {
			w = append(w, "[,"[map[bool]int{true: 0, false: 1}[i == 0]])
			w = append(w, quote...)
			w = strconv.AppendInt(w, int64(i), 10)
			w = append(w, quote...)
		}
		w = append(w, ']')
		if !bytes.Equal(got.out, w) {
			c.fail("large-calls-text", "%s", diff(got, outcome{out: w}))
			return
		}
	}
	count("calls_large", n)
	seen("large calls", k, n)
}

// scaleFault hides one value that cannot be encoded in a large one.
func scaleFault(c *caseCtx, b *bigValue, o *optSet) {
	n := c.scaleSize(140000)
	at := n - 1
	if c.chance(3) {
		at = c.intn(n)
	}
	f := &faults[c.intn(len(faults))]
	bad := f.make(c).Interface()
	var v interface{}
	switch c.intn(4) {
	case 0:
		m := map[int]interface{}{}
		for i := 0; i < n; i++ {
			m[i] = i
		}
		m[at] = bad
		v = m
	case 1:
		m := new(sync.Map)
		for i := 0; i < n; i++ {
			m.Store(i, nil)
		}
		m.Store(at, bad)
		v = m
	default:
		l := make([]interface{}, n)
		for i := range l {
			l[i] = i
		}
		l[at] = bad
		v = l
	}
	if c.chance(3) {
		v = map[string]interface{}{"a": v}
	}
	var opts []jettison.Option
	if c.bool() {
		opts = append(opts, jettison.UnsortedMap())
	}
	c.desc = fmt.Sprintf("%s at %d of %d in a %T", f.name, at, n, v)
	crumb("%s", c.desc)
	got := tryLib(v, opts)
	c.evals++
	if got.class() != "error" {
		c.fail("large-no-error-"+f.name, "%v", got)
		return
	}
	if got.out != nil {
		c.fail("large-bytes-with-error-"+f.name, "%d bytes returned together with error %v", len(got.out), got.err)
		return
	}
	one := tryLib([]interface{}{bad}, opts)
	if one.class() != "error" || libErrKind(one.err) != libErrKind(got.err) || reflect.TypeOf(one.err) != reflect.TypeOf(got.err) {
		c.fail("large-other-error-"+f.name, "alone: %v\namong %d: %v", one, n, got)
		return
	}
	count("large_faults", 1)
	seen("large fault", f.name, at, n)
}

// ---- histories ----

// hotType encodes values of one type thousands of times: every call gives
// what the first one gave.
func hotType(c *caseCtx) {
	g := newVgen(c.rng)
	g.small = true
	fresh()
	t := g.randType()
	if c.chance(3) {
		t = structTypes[c.intn(len(structTypes))]
	}
	type hot struct {
		v    interface{}
		o    *optSet
		opts []jettison.Option
		want outcome
	}
	var hs []*hot
	for i := 2 + c.intn(4); i > 0; i-- {
		v := reflect.New(t).Elem()
		g.budget = 12
		g.made = map[reflect.Type][]madePtr{}
		g.fill(v, 0)
		h := &hot{o: c.randOpts(optMode{lists: true, escapeHatches: true, density: 2 + c.intn(4)})}
		if c.chance(3) { // a list with some of the fields, some twice
			var l []string
			for i := 0; i < 40; i++ {
				if st := t; st.Kind() == reflect.Struct && st.NumField() > 0 {
					l = append(l, st.Field(c.intn(st.NumField())).Name)
				}
			}
			l = append(l[:len(l)/(1+c.intn(10))], c.nameList()...)
			if c.bool() {
				h.o.hasAllow, h.o.allow = true, l
			} else {
				h.o.hasDeny, h.o.deny = true, l
			}
		}
		if c.chance(3) {
			v = v.Addr()
		}
		if h.v = v.Interface(); h.v == nil {
			return
		}
		h.opts = h.o.options()
		if h.want = tryRef(h.v, h.o); len(h.want.out) > 2000 {
			continue
		}
		hs = append(hs, h)
	}
	if len(hs) == 0 {
		return
	}
	n := []int{130, 260, 520, 1030, 1030, 2050, 4100, 4100, 8200, 10010, 20000, 66000}[c.intn(12)]
	crumb("hot type %v, %d calls", t, n)
	uniform := c.bool() // one of them over and over, then the others
	for i := 0; i < n+20; i++ {
		h := hs[0]
		if !uniform || i >= n {
			h = hs[i%len(hs)]
		}
		got := tryLib(h.v, h.opts)
		c.evals++
		if i >= 2*len(hs) && sameOutcome(got, h.want) {
			continue
		}
		want, ok := eqRef(got, h.v, h.o)
		if !ok {
			c.desc = fmt.Sprintf("call %d of %d; %s options %v", i, n, describe(h.v), h.o)
			c.fail("depends-on-number-of-calls", "%s", diff(got, want))
			return
		}
		if got.ok() {
			h.want = got
		}
	}
	count("hot_types", 1)
	maxCount("max_calls_of_a_type", n)
}

var manyTypes []reflect.Type

// manyType returns one of any number of types.
func manyType(i int) reflect.Type {
	for len(manyTypes) <= i {
		k := len(manyTypes)
		var t reflect.Type
		base := reflect.ArrayOf(k/9+1, tof((*bool)(nil)))
		switch k % 9 {
		case 0:
			t = base
		case 1:
			t = reflect.PtrTo(base)
		case 2:
			t = reflect.SliceOf(base)
		case 3:
			t = reflect.MapOf(tof((*string)(nil)), base)
		case 4:
			t = reflect.StructOf([]reflect.StructField{{Name: "F" + strconv.Itoa(k), Type: tof((**int)(nil))}})
		case 5:
			t = reflect.StructOf([]reflect.StructField{{Name: "A", Type: tof((*int)(nil)), Tag: reflect.StructTag(fmt.Sprintf(`json:"a%d<"`, k))}, {Name: "B", Type: base}})
		case 6:
			t = reflect.PtrTo(manyTypes[k-1])
		case 7:
			t = reflect.ArrayOf(1, reflect.PtrTo(manyTypes[k-2]))
		case 8:
			t = reflect.StructOf([]reflect.StructField{{Name: "M", Type: manyTypes[k-5]}})
		}
		manyTypes = append(manyTypes, t)
	}
	return manyTypes[i]
}

// manyTypesHistory encodes values of very many types, again and again.
func manyTypesHistory(c *caseCtx) {
	g := newVgen(c.rng)
	g.small = true
	fresh()
	n := []int{130, 260, 260, 520, 520, 1030, 1030, 2060, 4110}[c.intn(9)]
	first := c.intn(300)
	o := defaultOpts()
	check := func(i, round int) bool {
		t := manyType(first + i)
		v := reflect.New(t).Elem()
		g.budget, g.maxDepth = 10, 3
		if t.Size() < 100 {
			g.fill(v, 0)
		}
		iv := v.Interface()
		if c.chance(4) {
			iv = []interface{}{iv}
		}
		got := tryLib(iv, nil)
		want, ok := eqRef(got, iv, o)
		c.evals++
		if !ok {
			c.desc = fmt.Sprintf("type %d of %d, %v, after %d more", i, n, t, round)
			c.fail("depends-on-number-of-types", "%s", diff(got, want))
		}
		return ok
	}
	crumb("%d types from %d", n, first)
	for i := 0; i < n; i++ {
		if !check(i, 0) || i > 0 && c.chance(3) && !check(c.intn(i), i) {
			return
		}
	}
	for i := 0; i < 200; i++ {
		if !check(c.intn(n), n) {
			return
		}
	}
	fresh()
	count("many_types", 1)
	maxCount("max_types", n)
	seen("many types", first, n)
}
