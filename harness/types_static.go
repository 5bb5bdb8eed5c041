package main

import (
	"context"
	"encoding"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"math/big"
	"net"
	"net/netip"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"
	"unsafe"
)

var (
	staticTypes, stdTypes   []reflect.Type
	marshTypes, structTypes []reflect.Type
	// twinTypes holds two lists: the types of the same index have the same
	// name, but are different.
	twinTypes [][]reflect.Type
	// chainTypes refer to others twice or more on each of many levels.
	chainTypes []reflect.Type
	// dagTypes are the tops of deep embedding graphs.
	dagTypes []reflect.Type
	twinOf   = map[reflect.Type]reflect.Type{}
	notStd   = map[reflect.Type]bool{}
	fillers  = map[reflect.Type]func(g *vgen, v reflect.Value, depth int){}
)

// ---- call log and generic marshaler bodies ----

type callRec struct {
	Method string
	Type   string
	Recv   string  // representation of the receiver's value
	Ptr    uintptr // address of the receiver, for pointer receivers
	Ctx    context.Context
}

var (
	logOn   bool
	logOff  int
	callLog []callRec
	// marshErrMod makes about one in so many receivers fail.
	marshErrMod uint64
)

var errMarsh = errors.New("marshaler failure")

// vrepr writes a representation of v that does not depend on addresses.
func vrepr(sb *strings.Builder, v reflect.Value, depth int) {
	if !v.IsValid() {
		sb.WriteString("invalid")
		return
	}
	if depth > 6 || sb.Len() > 4000 {
		sb.WriteString("~")
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		fmt.Fprintf(sb, "%t", v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(sb, "%d", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprintf(sb, "%d", v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(sb, "%x", v.Float())
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteByte('[')
		for i := 0; i < v.Len() && i < 40; i++ {
			vrepr(sb, v.Index(i), depth+1)
			sb.WriteByte(' ')
		}
		fmt.Fprintf(sb, "%d]", v.Len())
	case reflect.Struct:
		if v.Type() == tSyncMap {
			sb.WriteString("sync.Map") // reading one may reorganize it
			return
		}
		sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			vrepr(sb, v.Field(i), depth+1)
			sb.WriteByte(' ')
		}
		sb.WriteByte('}')
	case reflect.Map:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		// Independent of the iteration order.
		var sum uint64
		it := v.MapRange()
		for it.Next() {
			var e strings.Builder
			vrepr(&e, it.Key(), depth+1)
			e.WriteByte(':')
			vrepr(&e, it.Value(), depth+1)
			sum += strHash(e.String())
		}
		fmt.Fprintf(sb, "map%d/%x", v.Len(), sum)
	case reflect.Ptr:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteByte('&')
		vrepr(sb, v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteString("i:" + v.Elem().Type().String() + ":")
		vrepr(sb, v.Elem(), depth+1)
	case reflect.Chan:
		fmt.Fprintf(sb, "chan:%t:%d", v.IsNil(), v.Cap())
	case reflect.Func:
		fmt.Fprintf(sb, "func:%s", funcName(v))
	case reflect.UnsafePointer:
		sb.WriteString("unsafe:" + spotName(v.Pointer()))
	default:
		fmt.Fprintf(sb, "%v", v)
	}
}

// What functions and unsafe pointers hold: one of a few known ones, so
// that a method can tell which of them it was called with.
func fn0() {}
func fn1() { crumbs++ }
func fn2() { crumbs += 2 }

var (
	crumbs int
	funcs  = []func(){fn0, fn1, fn2}
	spots  [3]int
)

func funcName(v reflect.Value) string {
	if v.IsNil() {
		return "nil"
	}
	for i, f := range funcs {
		if reflect.ValueOf(f).Pointer() == v.Pointer() {
			return strconv.Itoa(i)
		}
	}
	return "other"
}

func spotName(p uintptr) string {
	if p == 0 {
		return "nil"
	}
	for i := range spots {
		if uintptr(unsafe.Pointer(&spots[i])) == p {
			return strconv.Itoa(i)
		}
	}
	return "other"
}

func strHash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	x := h.Sum64()
	x ^= x >> 29
	x *= 0xbf58476d1ce4e5b9
	return x ^ x>>32
}

// enterCall logs a method call and returns the representation of its
// receiver and a hash of it.
func enterCall(method, name string, x interface{}, ctx context.Context) (string, uint64) {
	v := reflect.ValueOf(x)
	var ptr uintptr
	if v.Kind() == reflect.Ptr && v.Type().Name() == "" && v.Type().Elem().Name() == name {
		ptr = v.Pointer()
		if v.IsNil() {
			return "nilrecv", 1
		}
		v = v.Elem()
	}
	var sb strings.Builder
	vrepr(&sb, v, 0)
	s := sb.String()
	if logOn && logOff == 0 {
		callLog = append(callLog, callRec{method, name, s, ptr, ctx})
	}
	return s, strHash(method + name + s)
}

func mAppendCtx(name string, x interface{}, ctx context.Context, b []byte) ([]byte, error) {
	s, h := enterCall("AppendJSONContext", name, x, ctx)
	if marshErrMod != 0 && h%marshErrMod == 0 {
		return failBuf(h, b), errMarsh
	}
	if ctx != nil {
		if t, ok := ctx.Value(ctxKey{}).(string); ok {
			s += "@" + t
		}
	}
	return mAppendBody(s, h, "c", b), nil
}

func mAppend(name string, x interface{}, b []byte) ([]byte, error) {
	s, h := enterCall("AppendJSON", name, x, nil)
	if marshErrMod != 0 && h%marshErrMod == 0 {
		return failBuf(h, b), errMarsh
	}
	return mAppendBody(s, h, "a", b), nil
}

// failBuf returns what a failing append method returns for a buffer.
func failBuf(h uint64, b []byte) []byte {
	switch h >> 20 % 3 {
	case 0:
		return append(b, `{"unfinished":[`...)
	case 1:
		return b
	}
	return nil
}

func mAppendBody(s string, h uint64, tag string, b []byte) []byte {
	switch h >> 20 % 4 {
	case 0:
		// A new array, whatever room the given one has.
		n := make([]byte, len(b), len(b)+int(h>>30%40))
		copy(n, b)
		b = n
	case 1:
		// The free part of the buffer is used as a scratch space.
		b = append(b, "\"scratch, scratch, scratch\"}}"...)[:len(b)]
	}
	switch h % 5 {
	case 0:
		return append(b, "null"...)
	case 1:
		return append(b, `{"`+tag+`":[1,2]}`...)
	case 2:
		return append(b, "-1.5e-07"...)
	}
	q, _ := json.Marshal(tag + s)
	return append(b, q...)
}

func mJSON(name string, x interface{}) ([]byte, error) {
	s, h := enterCall("MarshalJSON", name, x, nil)
	if marshErrMod != 0 && h%marshErrMod == 0 {
		return nil, errMarsh
	}
	switch h % 8 {
	case 0:
		return []byte("null"), nil
	case 1:
		return []byte("{ \"j\" : [ 1 ,\t2 ] ,\n\"<k>\":\"a  b\\\" & \\\\\" }"), nil
	case 2:
		return []byte("12e-07"), nil
	case 3:
		return []byte("\t\"x\u2028\\u2029\xff \" "), nil
	case 4:
		return []byte(" null\n"), nil
	}
	q, _ := json.Marshal("j" + s)
	return q, nil
}

func mText(name string, x interface{}) ([]byte, error) {
	s, h := enterCall("MarshalText", name, x, nil)
	if marshErrMod != 0 && h%marshErrMod == 0 {
		return nil, errMarsh
	}
	switch h % 4 {
	case 0:
		return []byte("t\"\\<" + s + "\x01\xfe\u2029"), nil
	case 1:
		return []byte("t" + s + "\n"), nil
	}
	return []byte("t" + s), nil
}

type ctxKey struct{}

// ---- plain named types ----

type (
	MyInt    int
	MyInt8   int8
	MyUint64 uint64
	MyString string
	MyBool   bool
	MyF32    float32
	MyF64    float64
	MyByte   uint8
	MyBytes  []byte
	MyBytes2 []MyByte
	MyArr    [4]MyByte
	MyMap    map[string]int
	MySlice  []string
	MyDur    time.Duration
	MyTime   time.Time
	// Types with the names of ones that the library knows.
	Duration   time.Duration
	Number     json.Number
	RawMessage json.RawMessage
	Time       time.Time
	Map        map[string]interface{}
	MyIface    interface{ Foo() string }
	MyPtr      *int
	MyEface    interface{}
	myHidden   int
	MyNum      json.Number
	MyRaw      json.RawMessage
	Empty      struct{}
	Wide       struct {
		F01, F02, F03, F04, F05, F06, F07, F08, F09, F10, F11, F12, F13, F14, F15, F16, F17, F18, F19, F20 int
		G01, G02, G03, G04, G05, G06, G07, G08, G09, G10, G11, G12, G13, G14, G15, G16, G17, G18, G19, G20 string
		H01, H02, H03, H04, H05, H06, H07, H08, H09, H10, H11, H12, H13, H14, H15, H16, H17, H18, H19, H20 *int8
		I01, I02, I03, I04, I05, I06, I07, I08, I09, I10                                                   uint8
	}
	Mixed struct {
		A bool
		B int64
		C uint8
		D float32
		E string
		F uint16
		G []int16
		H interface{}
		I [3]uint8
		J map[string]int8
		K *MyInt
		L struct{ X, Y int32 }
		M error
		N func() `json:"-"`
		o int
		P chan int `json:"-"`
		Q [0]string
		R struct{}
		S time.Time
		T json.Number
		U time.Duration
		V json.RawMessage
	}
	Quoted struct {
		A int             `json:",string"`
		B string          `json:",string"`
		C *int            `json:",string"`
		D *string         `json:",string"`
		E bool            `json:"e,string"`
		F float32         `json:",string,omitempty"`
		G MyString        `json:",string"`
		H uint8           `json:",string"`
		I []int           `json:",string"`
		J json.Number     `json:",string"`
		K time.Duration   `json:",string"`
		L **int           `json:",string"`
		M interface{}     `json:",string"`
		N *bool           `json:",string,omitempty"`
		O MyPtr           `json:",string"`
		P uintptr         `json:",string"`
		Q JSONInt         `json:",string"`
		R TextStr         `json:",string"`
		S *time.Duration  `json:",string"`
		T *json.Number    `json:",string"`
		U time.Time       `json:",string"`
		V [1]int          `json:",string"`
		W map[string]int  `json:",string"`
		X struct{ A int } `json:",string"`
	}
	Omit struct {
		A int             `json:",omitempty"`
		B string          `json:",omitempty"`
		C *int            `json:",omitempty"`
		D []int           `json:",omitempty"`
		E map[string]int  `json:",omitempty"`
		F interface{}     `json:",omitempty"`
		G bool            `json:",omitempty"`
		H float64         `json:",omitempty"`
		I [0]int          `json:",omitempty"`
		J [1]int          `json:",omitempty"`
		K struct{}        `json:",omitempty"`
		L error           `json:",omitempty"`
		M time.Time       `json:",omitempty"`
		N JSONInt         `json:",omitempty"`
		O *JSONInt        `json:",omitempty"`
		P uint8           `json:",omitempty"`
		Q []byte          `json:",omitempty"`
		R json.RawMessage `json:",omitempty"`
		S json.Number     `json:",omitempty"`
		T fmt.Stringer    `json:",omitempty"`
		U func()          `json:"-"`
		V float32         `json:",omitempty"`
		W uint64          `json:",omitempty"`
		X MyMap           `json:",omitempty"`
		Y MyString        `json:",omitempty"`
		Z uintptr         `json:",omitempty"`
	}
	OmitNil struct {
		A *int             `json:",omitnil"`
		B []int            `json:",omitnil"`
		C map[string]int   `json:",omitnil"`
		D interface{}      `json:",omitnil"`
		E error            `json:",omitnil"`
		F int              `json:",omitnil"`
		G string           `json:",omitnil"`
		H JSONInt          `json:",omitnil"`
		I *JSONInt         `json:",omitnil"`
		J JSONPtr          `json:",omitnil"`
		K json.RawMessage  `json:",omitnil"`
		L [1]*int          `json:",omitnil"`
		M struct{ P *int } `json:",omitnil"`
		N []byte           `json:",omitnil"`
		O json.Marshaler   `json:",omitnil"`
		P *time.Time       `json:",omitnil"`
		Q time.Time        `json:",omitnil"`
		R **int            `json:",omitnil,omitempty"`
		S *sync.Map        `json:",omitnil"`
		T NullJSON         `json:",omitnil"`
		U *NullJSON        `json:",omitnil"`
	}
	OmitNilFirst struct {
		A NullJSON `json:",omitnil"`
		B NullJSON `json:",omitnil"`
		C int      `json:",omitempty"`
		D NullJSON `json:",omitnil"`
		E *int     `json:",omitnil"`
		F NullJSON `json:",omitnil"`
	}
	OneNil struct {
		A NullJSON `json:",omitnil"`
	}
)

// ---- recursive types ----

type (
	List struct {
		V    int
		Next *List
	}
	Tree struct {
		L, R *Tree
		Kids []Tree
		Attr map[string]*Tree
		Any  interface{} `json:",omitempty"`
	}
	RS   []RS
	RM   map[string]RM
	RP   *RP
	RA   [2]*RA
	RMS  map[string][]RMS
	RSP  []*RSP
	MutA struct {
		B *MutB
		N int
	}
	MutB struct {
		A  []MutA
		C  map[string]MutC
		DD *MutB `json:",omitempty"`
	}
	MutC struct {
		A *MutA
		MutD
	}
	MutD struct {
		*MutB
		X string
	}
	RecEmb struct {
		*RecEmb
		V int
	}
	RecStructSlice struct {
		X []RecStructSlice
		Y [1]*RecStructSlice
	}
	RecMarsh struct {
		V JSONPtr
		N *RecMarsh
		S []RecMarsh
		M map[string]RecMarsh
	}
	RecIface struct {
		I interface{}
		N *RecIface
	}
	SliceOfPtrToSelf []*SliceOfPtrToSelf
	MapA             map[string]*MapB
	MapB             []MapA
)

// ---- marshalers ----

type JSONInt int

func (x JSONInt) MarshalJSON() ([]byte, error) { return mJSON("JSONInt", x) }

type JSONPtr struct {
	A int
	B string
}

func (x *JSONPtr) MarshalJSON() ([]byte, error) { return mJSON("JSONPtr", x) }

type TextStr string

func (x TextStr) MarshalText() ([]byte, error) { return mText("TextStr", x) }

type TextInt int

func (x TextInt) MarshalText() ([]byte, error) { return mText("TextInt", x) }

type TextPtr struct{ A int }

func (x *TextPtr) MarshalText() ([]byte, error) { return mText("TextPtr", x) }

type TextStruct struct {
	A int
	B string
}

func (x TextStruct) MarshalText() ([]byte, error) { return mText("TextStruct", x) }

type TextByte uint8

func (x TextByte) MarshalText() ([]byte, error) { return mText("TextByte", x) }

type JSONByte uint8

func (x *JSONByte) MarshalJSON() ([]byte, error) { return mJSON("JSONByte", x) }

type JSONKeyInt int

func (x JSONKeyInt) MarshalJSON() ([]byte, error) { return mJSON("JSONKeyInt", x) }

type JSONKeyStr string

func (x JSONKeyStr) MarshalJSON() ([]byte, error) { return mJSON("JSONKeyStr", x) }

type BothStr string

func (x BothStr) MarshalText() ([]byte, error) { return mText("BothStr", x) }
func (x BothStr) MarshalJSON() ([]byte, error) { return mJSON("BothStr", x) }

type NullJSON int

func (x NullJSON) MarshalJSON() ([]byte, error) {
	if x%2 == 0 {
		return []byte("null"), nil
	}
	return []byte(" 1 "), nil
}

// RawFrag returns its own content from MarshalJSON.
type RawFrag string

func (x RawFrag) MarshalJSON() ([]byte, error) { return []byte(x), nil }

type RawFragPtr struct{ S string }

func (x *RawFragPtr) MarshalJSON() ([]byte, error) { return []byte(x.S), nil }

// RawText returns its own content from MarshalText.
type RawText string

func (x RawText) MarshalText() ([]byte, error) { return []byte(x), nil }

// RawAppend appends a valid JSON text.
type RawAppend struct{ S string }

func (x RawAppend) AppendJSON(b []byte) ([]byte, error) { return append(b, x.S...), nil }

// AppendKey has an append method that maps must not use for keys.
type AppendKey string

func (x AppendKey) AppendJSON(b []byte) ([]byte, error) { return append(b, `"append"`...), nil }

type AppendKeyInt int

func (x AppendKeyInt) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ctx"`...), nil
}

type AppendByte uint8

func (x AppendByte) AppendJSON(b []byte) ([]byte, error) { return mAppend("AppendByte", x, b) }

type CtxByte uint8

func (x *CtxByte) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return mAppendCtx("CtxByte", x, c, b)
}

// Failing always returns errFail.
type Failing struct{ X int }

type failError struct{ code int }

func (e *failError) Error() string { return fmt.Sprintf("fail %d", e.code) }

var errFail = &failError{42}

func (x Failing) MarshalJSON() ([]byte, error) { return nil, fmt.Errorf("wrapped: %w", errFail) }

type FailText struct{ X int }

func (x FailText) MarshalText() ([]byte, error) {
	return []byte("partial"), fmt.Errorf("wrapped: %w", errFail)
}

type FailAppend struct{ X int }

func (x *FailAppend) AppendJSON(b []byte) ([]byte, error) {
	return append(b, `"partial`...), fmt.Errorf("wrapped: %w", errFail)
}

type FailCtx struct{ X int }

func (x *FailCtx) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return nil, fmt.Errorf("wrapped: %w", errFail)
}

// Panicker panics in its method.
type Panicker struct{ X int }

type panicValue struct{ x int }

func (x Panicker) MarshalJSON() ([]byte, error) { panic(panicValue{x.X}) }

type PanicText struct{ X int }

func (x *PanicText) MarshalText() ([]byte, error) { panic(panicValue{x.X}) }

type PanicAppend struct{ X int }

func (x PanicAppend) AppendJSON(b []byte) ([]byte, error) {
	_ = append(b, "XXXXXXXX"...)
	panic(panicValue{x.X})
}

// ---- pointer-shaped and embedded marshalers ----

type (
	EmbPtrTime  struct{ *time.Time }
	EmbTime     struct{ time.Time }
	EmbTimeMore struct {
		time.Time
		X int
	}
	EmbJSON     struct{ JSONInt }
	EmbJSONPtr  struct{ *JSONPtr }
	EmbJSONPtrV struct{ JSONPtr }
	EmbText     struct {
		TextStr
		A int
	}
	EmbTextPtr struct {
		A int
		*TextPtr
	}
	EmbIface struct{ json.Marshaler }
	EmbErr   struct{ error }
	EmbStr   struct{ fmt.Stringer }
	EmbBoth  struct {
		JSONInt
		TextStr
	}
	EmbTwo struct {
		JSONInt
		*JSONPtr
	}
	PtrStruct  struct{ P *int }
	PtrStruct2 struct{ P PtrStruct }
	MapStruct  struct{ M map[string]int }
	PtrArr     [1]*string
	PtrArrSt   [1]PtrStruct
	ChanStruct struct {
		C chan int `json:"-"`
	}
	FuncHolder struct {
		F func() `json:"-"`
	}
	UPStruct struct {
		U unsafe.Pointer `json:"-"`
	}
	ZeroThenPtr struct {
		_ struct{}
		P *int
	}
	IfaceFields struct {
		A json.Marshaler
		B encoding.TextMarshaler
		C error
		D fmt.Stringer
		E interface{}
		F MyIface
		G interface {
			json.Marshaler
			encoding.TextMarshaler
		}
		H []json.Marshaler
		I map[string]encoding.TextMarshaler
		J [1]error
	}
	TimeAll struct {
		A time.Time
		B *time.Time
		C []time.Time
		D map[string]time.Time
		E interface{}
		F [2]*time.Time
		G **time.Time
		H EmbTime
		I map[time.Time]int
		J map[*time.Time]int
		K time.Time  `json:",string"`
		L *time.Time `json:",omitempty"`
	}
	DurAll struct {
		A time.Duration
		B *time.Duration
		C []time.Duration
		D map[string]time.Duration
		E interface{}
		F time.Duration  `json:",string"`
		G *time.Duration `json:",string,omitempty"`
		H map[time.Duration]time.Duration
		I [2]time.Duration
		J time.Duration `json:",omitempty"`
		time.Duration
	}
	ByteAll struct {
		A []byte
		B [3]byte
		C *[]byte
		D *[2]byte
		E [][]byte
		F [][2]byte
		G map[string][]byte
		H MyBytes
		I MyBytes2
		J MyArr
		K [0]byte
		L []TextByte
		M []JSONByte
		N [2]JSONByte
		O interface{}
		P [5]uint8 `json:",omitempty"`
		Q []AppendByte
		R []CtxByte
		S [2]AppendByte
		T [2]CtxByte
		U [2]TextByte
	}
	NilAll struct {
		A []int
		B map[string]int
		C [][]int
		D []map[string][]string
		E map[string][]int
		F map[string]map[string]int
		G *[]int
		H *map[int]int
		I interface{}
		J MySlice
		K MyMap
		L []interface{}
		M []byte
		N []struct{}
		O [1][]int
		P struct {
			S []int
			M map[int]bool
		}
		Q RS
		R RM
		S []int          `json:",omitempty"`
		T map[string]int `json:",omitempty"`
	}
	SyncAll struct {
		A sync.Map
		B *sync.Map
		C []*sync.Map
		D map[string]*sync.Map
		E interface{}
	}
	EmbSync struct {
		sync.Map
		X int
	}
	BigVal struct {
		A *big.Int
		B *big.Float
		C big.Rat
		D net.IP
		E netip.Addr
		F []big.Int
	}
	Anon struct {
		A struct {
			B struct {
				C []struct{ D *struct{ E int } }
			}
		}
		F map[string]struct{ G []struct{ H, I string } }
	}
)

func (x EmbErr) Foo() string { return "foo" }

type strErr string

func (e strErr) Error() string { return string(e) }

type ptrErr struct{ Code int }

func (e *ptrErr) Error() string { return "e" }

type intStringer int

func (s intStringer) String() string { return "s" }

type fooMap map[string]int

func (f fooMap) Foo() string { return "foo" }

type fooFn func()

func (f fooFn) Foo() string { return "fn" }

type fooPtr struct{ p *int }

func (f fooPtr) Foo() string { return "fp" }

type fooInt8 int8

func (f fooInt8) Foo() string { return "" }

// namedJSON is a MarshalJSON type with pointer receiver in a slice kind.
type PtrSlice []int

func (x *PtrSlice) MarshalJSON() ([]byte, error) { return mJSON("PtrSlice", x) }

type PtrMapM map[string]int

func (x *PtrMapM) MarshalText() ([]byte, error) { return mText("PtrMapM", x) }

type keyIface interface {
	encoding.TextMarshaler
}

// NestMarshal encodes a part of itself with the library.
type NestMarshal struct {
	A int
	B []string
	C *NestMarshal
}

func (x NestMarshal) MarshalJSON() ([]byte, error) {
	type plain NestMarshal
	return libMarshal((*plain)(&x))
}

type NestAppend struct {
	A int
	B map[string]string
	C []NestMarshal
}

func (x *NestAppend) AppendJSON(b []byte) ([]byte, error) {
	type plain NestAppend
	return libAppend(b, (*plain)(x))
}

type FuncM func()

func (x FuncM) MarshalText() ([]byte, error) { return mText("FuncM", x) }

type ChanM chan int

func (x ChanM) MarshalJSON() ([]byte, error) { return mJSON("ChanM", x) }

func tof(p interface{}) reflect.Type { return reflect.TypeOf(p).Elem() }

func init() {
	notStd[tof((*NestAppend)(nil))] = true
	base := []reflect.Type{
		tof((*MyInt)(nil)), tof((*MyInt8)(nil)), tof((*MyUint64)(nil)), tof((*MyString)(nil)), tof((*MyBool)(nil)), tof((*MyF32)(nil)), tof((*MyF64)(nil)),
		tof((*MyByte)(nil)), tof((*MyBytes)(nil)), tof((*MyBytes2)(nil)), tof((*MyArr)(nil)), tof((*MyMap)(nil)), tof((*MySlice)(nil)), tof((*MyDur)(nil)), tof((*Duration)(nil)), tof((*Number)(nil)), tof((*RawMessage)(nil)), tof((*Time)(nil)), tof((*Map)(nil)),
		tof((*MyIface)(nil)), tof((*MyPtr)(nil)), tof((*MyEface)(nil)), tof((*MyNum)(nil)), tof((*MyRaw)(nil)), tof((*Empty)(nil)), tof((*Wide)(nil)),
		tof((*Mixed)(nil)), tof((*Quoted)(nil)), tof((*Omit)(nil)), tof((*OmitNil)(nil)), tof((*OmitNilFirst)(nil)), tof((*OneNil)(nil)),
		tof((*List)(nil)), tof((*Tree)(nil)), tof((*RS)(nil)), tof((*RM)(nil)), tof((*RP)(nil)), tof((*RA)(nil)), tof((*RMS)(nil)), tof((*RSP)(nil)),
		tof((*MutA)(nil)), tof((*MutB)(nil)), tof((*MutC)(nil)), tof((*MutD)(nil)), tof((*RecEmb)(nil)), tof((*RecStructSlice)(nil)), tof((*RecMarsh)(nil)),
		tof((*RecIface)(nil)), tof((*SliceOfPtrToSelf)(nil)), tof((*MapA)(nil)), tof((*MapB)(nil)),
		tof((*JSONInt)(nil)), tof((*JSONPtr)(nil)), tof((*TextStr)(nil)), tof((*TextInt)(nil)), tof((*TextPtr)(nil)), tof((*TextStruct)(nil)),
		tof((*TextByte)(nil)), tof((*JSONByte)(nil)), tof((*JSONKeyInt)(nil)), tof((*JSONKeyStr)(nil)), tof((*BothStr)(nil)), tof((*NullJSON)(nil)),
		tof((*RawFrag)(nil)), tof((*RawFragPtr)(nil)), tof((*RawText)(nil)), tof((*RawAppend)(nil)), tof((*AppendKey)(nil)), tof((*AppendKeyInt)(nil)),
		tof((*AppendByte)(nil)), tof((*CtxByte)(nil)),
		tof((*EmbPtrTime)(nil)), tof((*EmbTime)(nil)), tof((*EmbTimeMore)(nil)), tof((*EmbJSON)(nil)), tof((*EmbJSONPtr)(nil)), tof((*EmbJSONPtrV)(nil)),
		tof((*EmbText)(nil)), tof((*EmbTextPtr)(nil)), tof((*EmbIface)(nil)), tof((*EmbErr)(nil)), tof((*EmbStr)(nil)), tof((*EmbBoth)(nil)), tof((*EmbTwo)(nil)),
		tof((*PtrStruct)(nil)), tof((*PtrStruct2)(nil)), tof((*MapStruct)(nil)), tof((*PtrArr)(nil)), tof((*PtrArrSt)(nil)), tof((*ChanStruct)(nil)),
		tof((*FuncHolder)(nil)), tof((*UPStruct)(nil)), tof((*ZeroThenPtr)(nil)), tof((*IfaceFields)(nil)), tof((*TimeAll)(nil)), tof((*DurAll)(nil)),
		tof((*ByteAll)(nil)), tof((*NilAll)(nil)), tof((*SyncAll)(nil)), tof((*EmbSync)(nil)), tSyncMap, tof((*BigVal)(nil)), tof((*Anon)(nil)),
		tof((*strErr)(nil)), tof((*ptrErr)(nil)), tof((*intStringer)(nil)), tof((*fooMap)(nil)), tof((*fooFn)(nil)), tof((*fooPtr)(nil)), tof((*fooInt8)(nil)),
		tof((*PtrSlice)(nil)), tof((*PtrMapM)(nil)), tof((*NestMarshal)(nil)), tof((*NestAppend)(nil)), tof((*FuncM)(nil)), tof((*ChanM)(nil)),
		tof((*error)(nil)), tof((*fmt.Stringer)(nil)), tof((*json.Marshaler)(nil)), tof((*encoding.TextMarshaler)(nil)), tEface, tEface,
		reflect.TypeOf((*big.Int)(nil)), tof((*big.Int)(nil)), tof((*net.IP)(nil)), tof((*netip.Addr)(nil)),
	}
	staticTypes = append(staticTypes, base...)

	fillers[tof((*RawFrag)(nil))] = func(g *vgen, v reflect.Value, _ int) {
		if g.allowErr && g.chance(4) {
			v.SetString(g.brokenJSON())
		} else {
			v.SetString(g.jsonText(2))
		}
	}
	fillers[tof((*RawFragPtr)(nil))] = func(g *vgen, v reflect.Value, _ int) { v.Field(0).SetString(g.jsonText(2)) }
	fillers[tof((*RawAppend)(nil))] = func(g *vgen, v reflect.Value, _ int) {
		v.Field(0).SetString([]string{"null", "1", `"a"`, `{"x":[]}`, `[1,2]`, "true", `""`}[g.intn(7)])
	}
	fillers[tof((*big.Int)(nil))] = func(g *vgen, v reflect.Value, _ int) {
		x := v.Addr().Interface().(*big.Int)
		x.SetInt64(g.int64v())
		if g.bool() {
			x.Mul(x, x)
		}
	}
	fillers[tof((*big.Float)(nil))] = func(g *vgen, v reflect.Value, _ int) {
		v.Addr().Interface().(*big.Float).SetFloat64(g.float64v(false))
	}
	fillers[tof((*big.Rat)(nil))] = func(g *vgen, v reflect.Value, _ int) {
		v.Addr().Interface().(*big.Rat).SetFrac64(g.int64v()>>2, 1+int64(g.intn(1000)))
	}
	fillers[tof((*net.IP)(nil))] = func(g *vgen, v reflect.Value, _ int) {
		b := make([]byte, []int{4, 16, 0}[g.intn(3)])
		for i := range b {
			b[i] = byte(g.u64())
		}
		v.SetBytes(b)
	}
	fillers[tof((*netip.Addr)(nil))] = func(g *vgen, v reflect.Value, _ int) {
		a := netip.AddrFrom4([4]byte{byte(g.u64()), 2, 3, 4})
		if g.bool() {
			a = netip.AddrFrom16([16]byte{0x20, byte(g.u64()), 1, 2, 3}).WithZone([]string{"", "eth0", `q"<`}[g.intn(3)])
		}
		v.Set(reflect.ValueOf(a))
	}
	fillers[tof((*MyNum)(nil))] = func(g *vgen, v reflect.Value, _ int) { v.SetString(g.s()) }
}

// initTypes computes the derived type lists.
func initTypes() {
	for _, t := range marshTypes {
		staticTypes = append(staticTypes, t)
	}
	for i, t := range twinTypes[0] {
		u := twinTypes[1][i]
		twinOf[t], twinOf[u] = u, t
		for _, x := range []reflect.Type{t, u} {
			if offersMarshaler(x) || offersMarshaler(reflect.PtrTo(x)) {
				marshTypes = append(marshTypes, x)
			}
			staticTypes = append(staticTypes, x)
		}
	}
	var st []reflect.Type
	for _, t := range structTypes {
		if t.Size() <= 8<<10 {
			st = append(st, t)
			staticTypes = append(staticTypes, t)
		}
	}
	structTypes = st
	for _, t := range dagTypes {
		staticTypes = append(staticTypes, t)
	}
	keyTypes = []reflect.Type{
		reflect.TypeOf(""), reflect.TypeOf(""), reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
		reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(uintptr(0)),
		tof((*MyString)(nil)), tof((*MyInt)(nil)), tof((*TextStr)(nil)), tof((*TextInt)(nil)), tof((*TextStruct)(nil)), reflect.TypeOf((*TextPtr)(nil)), reflect.TypeOf((*TextStruct)(nil)),
		tof((*JSONKeyInt)(nil)), tof((*JSONKeyStr)(nil)), tof((*BothStr)(nil)), tof((*RawText)(nil)), tof((*AppendKey)(nil)), tof((*AppendKeyInt)(nil)),
		tof((*keyIface)(nil)), tNumber, tDur, tTime, reflect.PtrTo(tTime), tof((*netip.Addr)(nil)), reflect.TypeOf((*big.Int)(nil)), tof((*JSONInt)(nil)), tof((*MyDur)(nil)), tof((*Duration)(nil)), tof((*Number)(nil)),
		reflect.TypeOf((*TextInt)(nil)), tof((*TextByte)(nil)),
	}
	for _, t := range marshTypes {
		if t.Implements(tTextM) && t.Comparable() {
			keyTypes = append(keyTypes, t)
		}
	}
	for _, l := range twinTypes {
		for _, t := range l {
			if refKeyTypeOK(t) && !t.Implements(tTextM) && t.Kind() != reflect.Interface {
				keyTypes = append(keyTypes, t)
			}
		}
	}
	for _, t := range keyTypes {
		if stdOK(t) {
			stdKeyTypes = append(stdKeyTypes, t)
		}
		if t.Kind() != reflect.Interface {
			syncKeyTypes = append(syncKeyTypes, t)
		}
	}
	for _, t := range staticTypes {
		if stdOK(t) {
			stdTypes = append(stdTypes, t)
		}
	}
}
