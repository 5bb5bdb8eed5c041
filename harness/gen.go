package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"
	_ "time/tzdata"
	"unicode"
	"unsafe"
)

// ---- literals of the current source tree (filled by dict_gen.go) ----

var (
	dictInts    []int64
	dictStrings []string
)

// sizeHint returns a collection or string length; interesting sizes come
// from the integer literals of the code under test.
func (r *rng) sizeHint(max int) int {
	switch r.intn(12) {
	case 0:
		return 0
	case 1, 2, 3, 4, 5:
		return r.intn(4)
	case 6, 7, 8:
		return r.intn(17)
	case 9:
		return r.intn(70)
	}
	for try := 0; try < 8; try++ {
		var n int64
		if len(dictInts) > 0 && r.chance(2) {
			n = dictInts[r.intn(len(dictInts))]
		} else {
			n = int64(1) << uint(r.intn(17))
		}
		n += int64(r.intn(3)) - 1
		if n >= 0 && n <= int64(max) {
			return int(n)
		}
	}
	return r.intn(8)
}

var nastyPieces = []string{
	`"`, `\`, `/`, `<`, `>`, `&`, `'`, "\b", "\f", "\n", "\r", "\t", "\x00", "\x1f", "\x7f", " ", "  ",
	"\u2028", "\u2029", "\u2027", "\u202a", "\u00e9", "\u4e16", "\U0001F600", "\U0010FFFF", "\ufffd", "\ufeff", "\u0080", "\u07ff", "\u0800",
	"\xff", "\xc3", "\xe2\x80", "\xe2", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\x80", "\x80", "\xf0\x9f\x98", "\xe2\x80\xa8", "\xe2\x80x",
	`{`, `}`, `[`, `]`, `:`, `,`, `null`, `":`, `","`, `\"`, `\\`, `\u2028`, `\ud800`, `e-0`, `a`, `b`, `xyz`, `0`, `-`, `%`, `=`,
}

func (r *rng) word() string {
	n := 1 + r.intn(8)
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_"[r.intn(43)]
	}
	return string(b)
}

// str returns a string with adversarial content or length.
func (r *rng) str() string {
	switch r.intn(14) {
	case 0:
		return ""
	case 1, 2, 3, 4:
		return r.word()
	case 5, 6, 7, 8:
		n := 1 + r.intn(6)
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteString(nastyPieces[r.intn(len(nastyPieces))])
			if r.chance(3) {
				sb.WriteString(r.word())
			}
		}
		return sb.String()
	case 9:
		if len(dictStrings) > 0 {
			s := dictStrings[r.intn(len(dictStrings))]
			if r.chance(2) {
				s += r.word()
			} else if r.chance(3) {
				s = r.word() + s
			}
			return s
		}
		return "null"
	case 10:
		n := r.intn(40)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.u64())
		}
		return string(b)
	case 11:
		// A long run with one or more special pieces somewhere.
		n := r.sizeHint(9000)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + (i+n)%26)
		}
		s := string(b)
		for k := r.intn(3); k > 0; k-- {
			at := r.intn(len(s) + 1)
			if r.chance(3) {
				at = []int{0, len(s), len(s) / 2}[r.intn(3)]
			}
			s = s[:at] + nastyPieces[r.intn(len(nastyPieces))] + s[at:]
		}
		return s
	case 12:
		var sb strings.Builder
		for i := r.intn(20); i >= 0; i-- {
			sb.WriteRune(rune(r.intn(0x11000)))
		}
		return sb.String()
	default:
		return nastyPieces[r.intn(len(nastyPieces))]
	}
}

func (r *rng) int64v() int64 {
	switch r.intn(8) {
	case 0:
		return int64(r.intn(3)) - 1
	case 1:
		return int64(r.intn(300)) - 150
	case 2:
		p := int64(1)
		for k := r.intn(19); k > 0; k-- {
			p *= 10
		}
		p += int64(r.intn(3)) - 1
		if r.bool() {
			p = -p
		}
		return p
	case 3:
		p := int64(uint64(1)<<uint(r.intn(64))) + int64(r.intn(3)) - 1
		if r.bool() {
			p = -p
		}
		return p
	case 4:
		if len(dictInts) > 0 {
			v := dictInts[r.intn(len(dictInts))] + int64(r.intn(3)) - 1
			if r.chance(3) {
				v = -v
			}
			return v
		}
		return math.MinInt64
	default:
		return int64(r.u64()) >> uint(r.intn(64))
	}
}

func (r *rng) float64v(allowErr bool) float64 {
	sign := 1.0
	if r.bool() {
		sign = -1
	}
	switch r.intn(10) {
	case 0:
		return sign * 0
	case 1:
		return sign * float64(r.intn(1000))
	case 2:
		b := []float64{1e21, 1e-6, 1e20, 1e22, 1e-7, 1e15, 1e16, 1e17, 9007199254740992, 1e-5, 123456789, 1e100, 1e-100, 1e-9, 1e-10}[r.intn(15)]
		bits := math.Float64bits(b)
		return sign * math.Float64frombits(bits+uint64(r.intn(5))-2)
	case 3:
		return sign * math.Float64frombits(uint64(r.intn(1<<20)))
	case 4:
		return sign * []float64{math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, math.SmallestNonzeroFloat32, 0.1, 1.0 / 3, math.Pi}[r.intn(7)]
	case 5:
		f, _ := strconv.ParseFloat(fmt.Sprintf("%d.%de%d", r.intn(10), r.intn(100000), r.intn(60)-30), 64)
		return sign * f
	case 6:
		if allowErr && r.chance(2) {
			return []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[r.intn(3)]
		}
		fallthrough
	case 7:
		return sign * float64(r.intn(100000)) / 1000
	default:
		for {
			f := math.Float64frombits(r.u64())
			if !math.IsNaN(f) && !math.IsInf(f, 0) {
				return f
			}
		}
	}
}

func (r *rng) float32v(allowErr bool) float32 {
	switch r.intn(4) {
	case 0:
		b := []float32{1e21, 1e-6, 1e20, 1e-7, 16777216, 0.1, math.MaxFloat32, math.SmallestNonzeroFloat32, 3.4e38, 1e-45, 1e22, 1e-5}[r.intn(12)]
		f := math.Float32frombits(math.Float32bits(b) + uint32(r.intn(5)) - 2)
		if math.IsNaN(float64(f)) || math.IsInf(float64(f), 0) {
			return b
		}
		if r.bool() {
			return -f
		}
		return f
	case 1:
		for {
			f := math.Float32frombits(uint32(r.u64()))
			if d := float64(f); !math.IsNaN(d) && !math.IsInf(d, 0) {
				return f
			}
		}
	}
	f := r.float64v(allowErr)
	if g := float32(f); !math.IsInf(float64(g), 0) || math.IsInf(f, 0) {
		return g
	}
	return 1.5
}

// zoneNames are zones with a change of the offset.
var zoneNames = []string{"Europe/Paris", "America/New_York", "Australia/Lord_Howe", "America/St_Johns", "Asia/Kathmandu", "Pacific/Apia", "Africa/Casablanca", "America/Caracas",
	"Antarctica/Troll", "Asia/Pyongyang", "Europe/Dublin", "Africa/Monrovia", "Pacific/Kiritimati", "Europe/Amsterdam", "Asia/Tehran"}

var zoneMu sync.Mutex
var zoneCache = map[string]*time.Location{}

// ruleZone returns a zone whose offset changes, the same pointer for a name.
func (r *rng) ruleZone() *time.Location {
	n := zoneNames[r.intn(len(zoneNames))]
	zoneMu.Lock()
	defer zoneMu.Unlock()
	l := zoneCache[n]
	if l == nil {
		var err error
		if l, err = time.LoadLocation(n); err != nil {
			l = time.FixedZone(n, 0)
		}
		zoneCache[n] = l
	}
	return l
}

func (r *rng) zone(std bool) *time.Location {
	switch r.intn(8) {
	case 7:
		return r.ruleZone()
	case 0, 1:
		return time.UTC
	case 2:
		return time.Local
	case 3:
		return time.FixedZone("", (r.intn(27*4)-12*4)*900)
	case 4:
		return time.FixedZone(r.str(), r.intn(2*86399)-86399)
	case 5:
		if !std {
			return time.FixedZone("Z"+r.word(), r.intn(4000000)-2000000)
		}
		fallthrough
	default:
		off := []int{1, -1, 59, -59, 60, -60, 61, -61, 3599, -3599, 3600, -3600, 86399, -86399, 86340, -86340, 19800, -12600}[r.intn(18)]
		return time.FixedZone([]string{"", "A", "CET", "+07", `"`, "<b>"}[r.intn(6)], off)
	}
}

func (r *rng) timev(std, allowErr bool) time.Time {
	var nsec int64
	switch r.intn(5) {
	case 0:
	case 1:
		nsec = int64(r.intn(1e9))
	case 2:
		nsec = int64(r.intn(1000)) * 1e6
	case 3:
		nsec = []int64{1, 999999999, 100000000, 10, 999999000, 1000, 500000000, 123456780, 99, 900000000}[r.intn(10)]
	default:
		p := int64(1)
		for k := r.intn(9); k > 0; k-- {
			p *= 10
		}
		nsec = p * int64(r.intn(10)) % 1e9
	}
	loc := r.zone(std)
	var t time.Time
	switch r.intn(8) {
	case 0:
		return time.Time{}
	case 1:
		t = time.Unix(r.int64v()%4e9, nsec).In(loc)
	case 2:
		y := []int{0, 1, 2, 4, 99, 100, 400, 1582, 1600, 1899, 1900, 1969, 1970, 1999, 2000, 2038, 2100, 2400, 9998, 9999}[r.intn(20)]
		t = time.Date(y, time.Month(1+r.intn(12)), 1+r.intn(31), r.intn(24), r.intn(60), r.intn(60), int(nsec), loc)
	case 3:
		// Month ends and leap days.
		y := r.intn(10000)
		t = time.Date(y, time.Month(1+r.intn(12)), 1, 0, 0, 0, 0, loc).Add(-time.Duration(r.intn(3)))
	case 4:
		y := r.intn(2500) * 4
		t = time.Date(y, 2, 28+r.intn(2), r.intn(24), r.intn(60), r.intn(60), int(nsec), loc)
	case 5:
		// First and last instants of the supported years.
		if r.bool() {
			t = time.Date(0, 1, 1, 0, 0, 0, 0, loc).Add(time.Duration(r.intn(3)) * time.Hour)
		} else {
			t = time.Date(9999, 12, 31, 23, 59, 59, 999999999, loc).Add(-time.Duration(r.intn(100000)))
		}
	default:
		t = time.Date(r.intn(10000), time.Month(1+r.intn(12)), 1+r.intn(31), r.intn(24), r.intn(60), r.intn(60), int(nsec), loc)
	}
	if y := t.Year(); y < 0 || y > 9999 {
		t = time.Date(2020, 1, 2, 3, 4, 5, int(nsec), loc)
	}
	if allowErr && r.chance(5) {
		t = time.Date([]int{-1, 10000, -9999, 123456}[r.intn(4)], 1, 2, 3, 4, 5, 6, loc)
	}
	return t
}

func (r *rng) durv() time.Duration {
	switch r.intn(6) {
	case 0:
		return time.Duration(r.int64v())
	case 1:
		return []time.Duration{0, 1, -1, math.MaxInt64, math.MinInt64, math.MinInt64 + 1, time.Microsecond, time.Millisecond, time.Second, time.Minute, time.Hour}[r.intn(11)] + time.Duration(r.intn(3)-1)
	case 2:
		u := []time.Duration{1, time.Microsecond, time.Millisecond, time.Second, time.Minute, time.Hour}[r.intn(6)]
		d := u * time.Duration(r.intn(2000))
		if r.bool() {
			d = -d
		}
		return d
	default:
		d := time.Duration(r.u64() >> uint(1+r.intn(62)))
		if r.bool() {
			d = -d
		}
		return d
	}
}

func (r *rng) number(allowErr bool) string {
	if allowErr && r.chance(3) {
		n := r.intn(7)
		b := make([]byte, n)
		for i := range b {
			b[i] = "0123456789+-.eE x"[r.intn(17)]
		}
		if r.chance(3) {
			return r.str()
		}
		return string(b)
	}
	if r.chance(8) {
		return ""
	}
	var sb strings.Builder
	if r.bool() {
		sb.WriteByte('-')
	}
	if r.chance(3) {
		sb.WriteByte('0')
	} else {
		sb.WriteByte(byte('1' + r.intn(9)))
		for k := r.intn(20); k > 0; k-- {
			sb.WriteByte(byte('0' + r.intn(10)))
		}
	}
	if r.chance(2) {
		sb.WriteByte('.')
		for k := r.intn(6); k >= 0; k-- {
			sb.WriteByte(byte('0' + r.intn(10)))
		}
	}
	if r.chance(2) {
		sb.WriteByte("eE"[r.intn(2)])
		sb.WriteString([]string{"", "+", "-"}[r.intn(3)])
		for k := r.intn(4); k >= 0; k-- {
			sb.WriteByte(byte('0' + r.intn(10)))
		}
	}
	return sb.String()
}

func (r *rng) ws() string {
	if r.chance(3) {
		return ""
	}
	var sb strings.Builder
	for k := r.intn(4); k > 0; k-- {
		sb.WriteByte(" \t\n\r"[r.intn(4)])
	}
	return sb.String()
}

// jsonString returns the source of a JSON string with freely chosen
// spellings.
func (r *rng) jsonString() string {
	var sb strings.Builder
	sb.WriteByte('"')
	for k := r.intn(7); k > 0; k-- {
		switch r.intn(8) {
		case 0:
			sb.WriteString([]string{`\"`, `\\`, `\/`, `\b`, `\f`, `\n`, `\r`, `\t`}[r.intn(8)])
		case 1:
			fmt.Fprintf(&sb, `\u%04x`, r.intn(0x10000))
		case 2:
			sb.WriteString([]string{"<", ">", "&", "\u2028", "\u2029", "\u2027", "é", "世", "😀", "\x7f", "\xff", "\xe2\x80", "\xe2", `\\`, `\\\"`, " ", "   ", ":", ",", "{", "]", "//", "/*"}[r.intn(23)])
		case 3:
			sb.WriteString(`\ud83d\ude00`)
		case 4:
			if len(dictStrings) > 0 {
				b, _ := json.Marshal(dictStrings[r.intn(len(dictStrings))])
				sb.WriteString(string(b[1 : len(b)-1]))
			}
		default:
			sb.WriteString(r.word())
			if r.bool() {
				sb.WriteByte(' ')
			}
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

// jsonText returns a valid JSON text with random white space.
func (r *rng) jsonText(depth int) string {
	w := r.ws
	k := r.intn(9)
	if depth <= 0 && k >= 7 {
		k = r.intn(7)
	}
	switch k {
	case 0:
		return w() + []string{"null", "true", "false"}[r.intn(3)] + w()
	case 1, 2:
		n := r.number(false)
		if n == "" {
			n = "0"
		}
		return w() + n + w()
	case 3, 4, 5, 6:
		return w() + r.jsonString() + w()
	case 7:
		var sb strings.Builder
		sb.WriteString(w() + "[" + w())
		n := r.intn(4)
		for i := 0; i < n; i++ {
			if i > 0 {
				sb.WriteString(",")
			}
			sb.WriteString(r.jsonText(depth - 1))
		}
		sb.WriteString("]" + w())
		return sb.String()
	default:
		var sb strings.Builder
		sb.WriteString(w() + "{" + w())
		n := r.intn(4)
		for i := 0; i < n; i++ {
			if i > 0 {
				sb.WriteString(",")
			}
			sb.WriteString(w() + r.jsonString() + w() + ":" + r.jsonText(depth-1))
		}
		sb.WriteString("}" + w())
		return sb.String()
	}
}

// brokenJSON returns a text that is usually not valid JSON.
func (r *rng) brokenJSON() string {
	s := []byte(r.jsonText(2))
	switch r.intn(6) {
	case 0:
		return ""
	case 1:
		if len(s) > 0 {
			return string(s[:r.intn(len(s))])
		}
	case 2:
		return string(s) + r.jsonText(0)
	case 3:
		if len(s) > 0 {
			s[r.intn(len(s))] = byte(r.u64())
		}
		return string(s)
	case 4:
		at := r.intn(len(s) + 1)
		return string(s[:at]) + []string{",", "]", "}", `"`, "x", "\x00", ":", "'", "0", "-"}[r.intn(10)] + string(s[at:])
	default:
		if len(s) > 1 {
			at := r.intn(len(s))
			return string(s[:at]) + string(s[at+1:])
		}
	}
	return "nul"
}

// ---- values ----

// A vgen fills values of arbitrary types.
type vgen struct {
	*rng
	std      bool // only types and values encoding/json handles alike
	allowErr bool // include elements that cannot be encoded
	budget   int  // remaining number of elements
	maxMap   int  // upper bound of map sizes, 0 for none
	maxDepth int
	small    bool // no long strings
	noPtrDup bool
	leafs    int // for unique leaf values
	unique   bool
	made     map[reflect.Type][]madePtr
	bytes    int // remaining bytes of strings and byte slices
}

// A madePtr is a pointer that may be used again, with what it holds.
type madePtr struct {
	v             reflect.Value
	weight, bytes int
}

func newVgen(r *rng) *vgen {
	g := &vgen{rng: r, budget: 60 + r.intn(200), maxDepth: 3 + r.intn(5), made: map[reflect.Type][]madePtr{}, bytes: 100000}
	if r.chance(40) {
		g.budget = 6000
		g.bytes = 1000000
	}
	return g
}

func (g *vgen) newValue(t reflect.Type) reflect.Value {
	p := reflect.New(t)
	g.fill(p.Elem(), 0)
	return p.Elem()
}

func (g *vgen) s() string {
	if g.unique {
		g.leafs++
		return "s" + strconv.Itoa(g.leafs)
	}
	s := g.str()
	if (g.small || g.bytes <= 0) && len(s) > 60 {
		s = s[:60]
	}
	g.bytes -= len(s)
	return s
}

// fill sets v, which must be addressable, to a generated value.
func (g *vgen) fill(v reflect.Value, depth int) {
	if !v.CanSet() {
		v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	t := v.Type()
	g.budget--
	switch t {
	case tTime:
		v.Set(reflect.ValueOf(g.timev(g.std, g.allowErr)))
		return
	case tDur:
		v.SetInt(int64(g.durv()))
		return
	case tNumber:
		v.SetString(g.number(g.allowErr))
		return
	case tRaw:
		if g.chance(8) {
			v.Set(reflect.Zero(t))
		} else if g.allowErr && g.chance(4) {
			v.SetBytes([]byte(g.brokenJSON()))
		} else {
			v.SetBytes([]byte(g.jsonText(2)))
		}
		return
	case tSyncMap:
		sm := v.Addr().Interface().(*sync.Map)
		g.fillSyncMap(sm, depth)
		return
	}
	if f, ok := fillers[t]; ok {
		f(g, v, depth)
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(g.bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if g.unique {
			g.leafs++
			v.SetInt(int64(g.leafs))
		} else {
			v.SetInt(g.int64v())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if g.unique {
			g.leafs++
			v.SetUint(uint64(g.leafs))
		} else {
			v.SetUint(uint64(g.int64v()))
		}
	case reflect.Float32:
		if g.unique {
			g.leafs++
			v.SetFloat(float64(g.leafs) + 0.5)
		} else {
			v.SetFloat(float64(g.float32v(g.allowErr)))
		}
	case reflect.Float64:
		if g.unique {
			g.leafs++
			v.SetFloat(float64(g.leafs) + 0.25)
		} else {
			v.SetFloat(g.float64v(g.allowErr))
		}
	case reflect.Complex64, reflect.Complex128:
		v.SetComplex(complex(1, 2))
	case reflect.String:
		v.SetString(g.s())
	case reflect.Ptr:
		if g.chance(5) || g.budget <= 0 || depth > g.maxDepth+6 {
			return
		}
		if pool := g.made[t]; len(pool) > 0 && g.chance(4) && !g.noPtrDup {
			m := pool[g.intn(len(pool))]
			if m.weight <= g.budget && m.bytes <= g.bytes {
				g.budget -= m.weight
				g.bytes -= m.bytes
				v.Set(m.v)
				return
			}
		}
		w, b := g.budget, g.bytes
		n := reflect.New(t.Elem())
		g.fill(n.Elem(), depth+1)
		v.Set(n.Convert(t))
		if len(g.made[t]) < 8 {
			g.made[t] = append(g.made[t], madePtr{v, w - g.budget, b - g.bytes})
		}
	case reflect.Interface:
		g.fillIface(v, depth)
	case reflect.Slice:
		if g.chance(8) {
			return
		}
		n := 0
		if g.budget > 0 && depth <= g.maxDepth {
			lim := g.budget
			plain := t.Elem().Kind() == reflect.Uint8 && reflect.PtrTo(t.Elem()).NumMethod() == 0
			if plain {
				if lim = 20000; lim > g.bytes {
					lim = 8
				}
			}
			n = g.sizeHint(lim)
			if plain {
				g.bytes -= n
			}
		}
		extra := 0
		if g.chance(3) {
			extra = g.intn(4)
		}
		s := reflect.MakeSlice(t, n, n+extra)
		if t.Elem().Kind() == reflect.Uint8 && fillers[t.Elem()] == nil {
			if reflect.PtrTo(t.Elem()).NumMethod() != 0 {
				g.budget -= n
			}
			str := g.str()
			for i := 0; i < n; i++ {
				if len(str) > 0 && i < len(str) {
					s.Index(i).SetUint(uint64(str[i]))
				} else {
					s.Index(i).SetUint(uint64(byte(g.u64())))
				}
			}
		} else {
			for i := 0; i < n; i++ {
				g.fill(s.Index(i), depth+1)
			}
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.fill(v.Index(i), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			g.fill(v.Field(i), depth+1)
		}
	case reflect.Map:
		if g.chance(8) {
			return
		}
		n := 0
		if g.budget > 0 && depth <= g.maxDepth {
			n = g.sizeHint(g.budget)
		}
		if g.maxMap > 0 && n > g.maxMap {
			n = g.maxMap
		}
		g.fillMap(v, n, depth)
	case reflect.Func:
		if f := reflect.ValueOf(funcs[g.intn(len(funcs))]); g.intn(3) != 0 && f.Type().ConvertibleTo(t) {
			v.Set(f.Convert(t))
		}
	case reflect.Chan:
		if g.bool() && t.ChanDir() == reflect.BothDir {
			v.Set(reflect.MakeChan(t, g.intn(5)))
		}
	case reflect.UnsafePointer:
		if g.intn(3) != 0 {
			v.SetPointer(unsafe.Pointer(&spots[g.intn(len(spots))]))
		}
	}
}

// fillKey fills a map key. What it points to is its own: what is done to the
// rest of the value later does not change the text of the key.
func (g *vgen) fillKey(k reflect.Value, depth int) {
	made := g.made
	g.made = map[reflect.Type][]madePtr{}
	g.fill(k, depth)
	g.made = made
}

// fillMap adds n entries with distinct key texts.
func (g *vgen) fillMap(v reflect.Value, n, depth int) {
	t := v.Type()
	m := reflect.MakeMapWithSize(t, 0)
	texts := map[string]bool{}
	o := defaultOpts()
	if !refKeyTypeOK(t.Key()) && t.Key().Kind() == reflect.Interface {
		n = 0
	}
	for i := 0; i < n; i++ {
		k := reflect.New(t.Key()).Elem()
		save := g.allowErr
		g.allowErr = false
		g.fillKey(k, depth+1)
		g.allowErr = save
		if g.std && k.Kind() == reflect.Interface && k.IsNil() {
			continue // encoding/json panics
		}
		txt, ok := "", hashable(k)
		if refKeyTypeOK(t.Key()) {
			txt, ok = keyText(k, o)
		}
		if !ok || texts[txt] {
			continue
		}
		if timeKey(k) {
			// Other layouts may map different keys to one text.
			if len(texts) > 0 {
				continue
			}
			i = n
		}
		texts[txt] = true
		e := reflect.New(t.Elem()).Elem()
		g.fill(e, depth+1)
		m.SetMapIndex(k, e)
	}
	v.Set(m)
}

// timeKey reports whether the text of a map key depends on the options.
func timeKey(k reflect.Value) bool {
	for k.Kind() == reflect.Interface && !k.IsNil() {
		k = k.Elem()
	}
	return k.Type() == tTime || k.Type() == reflect.PtrTo(tTime) || k.Type() == tDur
}

// dedupe removes the keys of a sync.Map that have the text of another one.
func dedupe(sm *sync.Map, o *optSet) {
	texts := map[string]bool{}
	sm.Range(func(k, _ interface{}) bool {
		if k == nil || !refKeyTypeOK(reflect.TypeOf(k)) {
			return true
		}
		txt, ok := keyText(reflect.ValueOf(k), o)
		if ok && texts[txt] {
			sm.Delete(k)
		}
		texts[txt] = true
		return true
	})
}

// hashable reports whether k can be the key of a map.
func hashable(k reflect.Value) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return len(map[interface{}]bool{k.Interface(): true}) == 1
}

// keyText returns the text of a map key, false if it has none.
func keyText(k reflect.Value, o *optSet) (s string, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	if !hashable(k) {
		return "", false
	}
	logOff++
	defer func() { logOff-- }()
	s, err := refKey(k, o)
	return s, err == nil
}

func (g *vgen) fillSyncMap(sm *sync.Map, depth int) {
	n := 0
	if g.budget > 0 && depth <= g.maxDepth {
		n = g.sizeHint(g.budget)
	}
	if g.maxMap > 0 && n > g.maxMap {
		n = g.maxMap
	}
	texts := map[string]bool{}
	for i := 0; i < n; i++ {
		kt := syncKeyTypes[g.intn(len(syncKeyTypes))]
		k := reflect.New(kt).Elem()
		save := g.allowErr
		g.allowErr = false
		g.fillKey(k, depth+1)
		g.allowErr = save
		if k.Kind() == reflect.Interface {
			if k.IsNil() {
				continue
			}
			k = k.Elem()
		}
		if !refKeyTypeOK(k.Type()) || !hashable(k) {
			continue
		}
		txt, ok := keyText(k, defaultOpts())
		if !ok || texts[txt] {
			continue
		}
		if timeKey(k) {
			if len(texts) > 0 {
				continue
			}
			i = n
		}
		texts[txt] = true
		e := reflect.New(tEface).Elem()
		g.fill(e, depth+1)
		sm.Store(k.Interface(), e.Interface())
	}
}

// fillIface stores a value of a random implementing type.
func (g *vgen) fillIface(v reflect.Value, depth int) {
	t := v.Type()
	if g.chance(6) {
		return
	}
	if depth > g.maxDepth+6 {
		return
	}
	if t.NumMethod() == 0 {
		var dt reflect.Type
		if g.budget <= 0 || depth > g.maxDepth || g.chance(3) {
			dt = simpleTypes[g.intn(len(simpleTypes))]
		} else {
			dt = g.genType(1)
		}
		p := reflect.New(dt)
		g.fill(p.Elem(), depth+1)
		if g.chance(5) {
			v.Set(p)
		} else {
			v.Set(p.Elem())
		}
		return
	}
	impls := implsOf(t, g.std)
	if len(impls) == 0 {
		return
	}
	it := impls[g.intn(len(impls))]
	p := reflect.New(it)
	if it.Kind() == reflect.Ptr && !g.chance(6) {
		n := reflect.New(it.Elem())
		g.fill(n.Elem(), depth+1)
		p.Elem().Set(n)
	} else {
		g.fill(p.Elem(), depth+1)
	}
	v.Set(p.Elem())
}

var implCache = map[string][]reflect.Type{}

func implsOf(t reflect.Type, std bool) []reflect.Type {
	key := fmt.Sprintf("%p-%v", t, std)
	key = t.String() + key
	if l, ok := implCache[key]; ok {
		return l
	}
	var l []reflect.Type
	for _, s := range staticTypes {
		if std && !stdOK(s) {
			continue
		}
		if s.Kind() == reflect.Interface {
			continue
		}
		if s.Implements(t) {
			l = append(l, s)
		} else if p := reflect.PtrTo(s); p.Implements(t) {
			l = append(l, p)
		}
	}
	implCache[key] = l
	return l
}

// ---- types ----

var simpleTypes = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(uintptr(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(""), reflect.TypeOf(""), reflect.TypeOf([]byte(nil)),
	tTime, tDur, tNumber, tRaw, reflect.TypeOf([]string(nil)), reflect.TypeOf([]interface{}(nil)), reflect.TypeOf(map[string]interface{}(nil)),
	reflect.TypeOf([3]byte{}), reflect.TypeOf(map[string]string(nil)), reflect.TypeOf(map[int]string(nil)), reflect.TypeOf(struct{}{}),
}

var errTypes = []reflect.Type{
	reflect.TypeOf((chan int)(nil)), reflect.TypeOf((func())(nil)), reflect.TypeOf(complex64(0)), reflect.TypeOf(complex128(0)),
	reflect.TypeOf(map[float64]int(nil)), reflect.TypeOf(map[bool]int(nil)), reflect.TypeOf(map[struct{ A int }]string(nil)),
	reflect.TypeOf(unsafe.Pointer(nil)), reflect.TypeOf(map[interface{}]int(nil)), reflect.TypeOf(map[[2]int]int(nil)),
}

var fieldTags = []string{
	``, ``, ``, ``, `json:"%"`, `json:"%"`, `json:"%,omitempty"`, `json:",omitempty"`, `json:"%,string"`, `json:",string"`, `json:",string,omitempty"`,
	`json:"%,omitempty,string"`, `json:"-"`, `json:"-,"`, `json:",omitempty"`, `json:"% <&>"`, `json:"%;x"`, `json:"%\\x"`, `json:"\"%"`, `json:"%$%.:/@"`,
	`json:"é%"`, `json:"世%界"`, `json:"%\u2028"`, `json:",omitempty "`, `json:", omitempty"`, `json:"%,OMITEMPTY"`, `xml:"a" json:"%,omitempty"`, `json: "%"`, `json:"%'"`, "json:\"`%\"", `json:"%,string,string"`,
	`json:"%,foo,omitempty,bar"`, `json:"%|~[]{}()*!#^+-_=?"`, `json:" "`, `json:",,omitempty"`,
}

var nilTags = []string{`json:",omitnil"`, `json:"%,omitnil"`, `json:"%,omitnil,omitempty"`, `json:",omitempty,omitnil"`, `json:",string,omitnil"`}

func (g *vgen) tag(i int) reflect.StructTag {
	tags := fieldTags
	if !g.std && g.chance(4) {
		tags = nilTags
	}
	t := tags[g.intn(len(tags))]
	name := string(rune('a'+i%26)) + g.word()
	if g.chance(10) && len(dictStrings) > 0 {
		d := dictStrings[g.intn(len(dictStrings))]
		ok := len(d) < 30
		for _, c := range d {
			if c < ' ' || c == '"' || c == '\\' || c == '`' || c == ',' || c > 0x7e {
				ok = false
			}
		}
		if ok && d != "" {
			name = d
		}
	}
	if g.chance(8) {
		name += string(g.letter())
	}
	return reflect.StructTag(strings.ReplaceAll(t, "%", name))
}

// letter returns a rune that is, at most times, a letter or digit.
func (r *rng) letter() rune {
	for i := 0; i < 20; i++ {
		x := rune(r.intn(0x33500))
		if r.bool() {
			x = rune(r.intn(0x3000))
		}
		if unicode.IsLetter(x) || unicode.IsDigit(x) || i > 3 && unicode.IsGraphic(x) && x >= 0x80 {
			return x
		}
	}
	return 'é'
}

var syncKeyTypes, keyTypes, stdKeyTypes []reflect.Type

// genType returns a random type.
func (g *vgen) genType(depth int) reflect.Type {
	k := g.intn(20)
	if depth <= 0 && k >= 10 {
		k = g.intn(10)
	}
	switch {
	case k < 4:
		return simpleTypes[g.intn(len(simpleTypes))]
	case k < 10:
		if g.allowErr && g.chance(8) {
			return errTypes[g.intn(len(errTypes))]
		}
		l := staticTypes
		if g.std {
			l = stdTypes
		}
		return l[g.intn(len(l))]
	case k < 12:
		return reflect.PtrTo(g.genType(depth - 1))
	case k < 14:
		return reflect.SliceOf(g.genType(depth - 1))
	case k < 15:
		n := g.intn(4)
		if g.chance(12) {
			n = g.sizeHint(70)
		}
		et := g.genType(depth - 1)
		if et.Size()*uintptr(n) > 4096 {
			n = 1
		}
		return reflect.ArrayOf(n, et)
	case k < 17:
		kl := keyTypes
		if g.std {
			kl = stdKeyTypes
		}
		return reflect.MapOf(kl[g.intn(len(kl))], g.genType(depth-1))
	default:
		if t := g.genStruct(depth); t != nil {
			return t
		}
		return simpleTypes[g.intn(len(simpleTypes))]
	}
}

// genStruct returns a run-time built struct type.
func (g *vgen) genStruct(depth int) (t reflect.Type) {
	defer func() {
		if recover() != nil {
			t = nil
		}
	}()
	n := g.intn(6)
	if g.chance(15) {
		n = 1
	}
	if g.chance(30) {
		n = g.sizeHint(80)
	}
	var fs []reflect.StructField
	size := uintptr(0)
	for i := 0; i < n; i++ {
		ft := g.genType(depth - 1)
		if size += ft.Size(); size > 1<<14 {
			break
		}
		f := reflect.StructField{Name: "F" + strconv.Itoa(i) + g.word(), Type: ft, Tag: g.tag(i)}
		if g.chance(12) && ft.Kind() == reflect.Struct && ft.Name() != "" && ft.PkgPath() != "" && ft.NumMethod() == 0 && reflect.PtrTo(ft).NumMethod() == 0 && isExportedName(ft.Name()) {
			f.Anonymous = true
			f.Name = ft.Name()
			dup := false
			for _, o := range fs {
				dup = dup || o.Name == f.Name
			}
			if dup {
				continue
			}
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

func isExportedName(s string) bool { return s != "" && s[0] >= 'A' && s[0] <= 'Z' }

// stdOK returns whether the static type t uses nothing that only exists
// in Jettison.
var stdMemo = map[reflect.Type]bool{}

func stdOK(t reflect.Type) bool {
	if b, ok := stdMemo[t]; ok {
		return b
	}
	b := stdCheck(t, map[reflect.Type]bool{})
	stdMemo[t] = b
	return b
}

func stdCheck(t reflect.Type, vis map[reflect.Type]bool) bool {
	if vis[t] {
		return true
	}
	vis[t] = true
	if t == tSyncMap {
		return false
	}
	if notStd[t] {
		return false
	}
	for _, x := range []reflect.Type{t, reflect.PtrTo(t)} {
		if x.Implements(tAppM) || x.Implements(tAppCtxM) {
			return false
		}
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array:
		return stdCheck(t.Elem(), vis)
	case reflect.Map:
		return stdCheck(t.Key(), vis) && stdCheck(t.Elem(), vis)
	case reflect.Struct:
		if t == tTime {
			return true
		}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if strings.Contains(f.Tag.Get("json"), "omitnil") {
				return false
			}
			if !stdCheck(f.Type, vis) {
				return false
			}
		}
	}
	return true
}

// ---- positions ----

const nPositions = 16

// wrap returns a value that holds v (addressable) in a certain position.
func wrap(pos int, v reflect.Value) reflect.Value {
	t := v.Type()
	switch pos {
	case 0:
		return v
	case 1:
		return v.Addr()
	case 2:
		s := reflect.MakeSlice(reflect.SliceOf(t), 1, 1)
		s.Index(0).Set(v)
		return s
	case 3:
		m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), t))
		m.SetMapIndex(reflect.ValueOf("k"), v)
		return m
	case 4, 5:
		st := reflect.StructOf([]reflect.StructField{
			{Name: "A", Type: reflect.TypeOf(int8(0)), Tag: `json:"a"`},
			{Name: "F", Type: t},
			{Name: "Z", Type: reflect.TypeOf("")},
		})
		s := reflect.New(st).Elem()
		s.Field(0).SetInt(7)
		s.Field(1).Set(v)
		s.Field(2).SetString("z")
		if pos == 5 {
			return s.Addr()
		}
		return s
	case 6:
		a := reflect.New(reflect.ArrayOf(1, t)).Elem()
		a.Index(0).Set(v)
		return a
	case 7:
		return reflect.ValueOf([]interface{}{v.Interface()})
	case 8:
		return reflect.ValueOf([]interface{}{v.Addr().Interface()})
	case 9:
		p := reflect.New(reflect.PtrTo(t))
		p.Elem().Set(v.Addr())
		return p
	case 10:
		a := reflect.New(reflect.ArrayOf(2, t)).Elem()
		a.Index(0).Set(v)
		a.Index(1).Set(v)
		return a
	case 11:
		st := reflect.StructOf([]reflect.StructField{{Name: "F", Type: t}})
		s := reflect.New(st).Elem()
		s.Field(0).Set(v)
		return s
	case 12:
		m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(0), reflect.PtrTo(t)))
		m.SetMapIndex(reflect.ValueOf(5), v.Addr())
		return m
	case 13:
		s := reflect.MakeSlice(reflect.SliceOf(t), 2, 3)
		s.Index(0).Set(v)
		s.Index(1).Set(v)
		p := reflect.New(s.Type())
		p.Elem().Set(s)
		return p
	case 14:
		a := reflect.New(reflect.ArrayOf(1, t))
		a.Elem().Index(0).Set(v)
		return a
	default:
		return reflect.ValueOf(map[string]interface{}{"i": v.Interface()})
	}
}

// fits reports whether wrapping a type is reasonable.
func fits(t reflect.Type) bool { return t.Size() < 1<<16 }
