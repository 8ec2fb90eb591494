package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"
)

// ---------------------------------------------------------------- strings

var nastyStrings = []string{"", " ", "a", "null", "true", "0", "-1", "1e5", "é", "日本語", "\u2028", "<>&", "\"", "\\", "\n\t\r", "\x00", "\x7f", "🚀",
	"a.b", "a/b", "-", "id", "Name", "name", "NAME", "\ufffd", "{}", "[]", strings.Repeat("x", 300), "\u0080", "'", "%d %s", "$ref", "#"}

func genString(g *rand.Rand) string {
	if g.Intn(400) == 0 {
		return strings.Repeat([]string{"x", "é", "\"", "0123456789abcdef", "日\n"}[g.Intn(5)], 100+g.Intn(4000))
	}
	switch g.Intn(4) {
	case 0:
		return nastyStrings[g.Intn(len(nastyStrings))]
	case 1:
		n := g.Intn(12)
		b := make([]rune, n)
		for i := range b {
			b[i] = rune(32 + g.Intn(95))
		}
		return string(b)
	case 2:
		n := g.Intn(8)
		b := make([]rune, n)
		for i := range b {
			for {
				b[i] = rune(g.Intn(0x11000))
				if utf8.ValidRune(b[i]) {
					break
				}
			}
		}
		return string(b)
	default:
		return fmt.Sprintf("k%d", g.Intn(20))
	}
}

// ---------------------------------------------------------------- JSON text

func genNumberText(g *rand.Rand) string {
	switch g.Intn(12) {
	case 0:
		return []string{"0", "-0", "1", "-1", "0.0", "-0.0", "1e0", "1E+5", "1e-5", "0e0", "0E-0", "10.50", "1.0", "100", "1e400", "-1e400", "1e-400",
			"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616",
			"255", "256", "-128", "-129", "127", "128", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296",
			"9007199254740993", "3.4028235e38", "3.4028236e38", "1.7976931348623157e308", "1e309", "0.1", "0.30000000000000004", "1.5e3", "12.7", "-12.7", "-0.5"}[g.Intn(48)]
	case 1:
		return strconv.FormatFloat(math.Float64frombits(g.Uint64()&^(0x7ff<<52)|uint64(g.Intn(2047))<<52), 'g', -1, 64)
	case 2:
		return strconv.FormatInt(int64(g.Uint64()), 10)
	case 3:
		return strconv.FormatUint(g.Uint64(), 10)
	case 4, 5:
		return strconv.Itoa(g.Intn(2000) - 1000)
	case 6:
		s := ""
		if g.Intn(2) == 0 {
			s = "-"
		}
		s += string(rune('1' + g.Intn(9)))
		for i := g.Intn(40); i > 0; i-- {
			s += string(rune('0' + g.Intn(10)))
		}
		return s
	case 7:
		s := strconv.Itoa(g.Intn(100)) + "."
		for i := g.Intn(25) + 1; i > 0; i-- {
			s += string(rune('0' + g.Intn(10)))
		}
		return s
	case 8:
		return fmt.Sprintf("%d.%de%d", g.Intn(10), g.Intn(1000), g.Intn(40)-20)
	case 9:
		return fmt.Sprintf("%dE%+d", g.Intn(100)-50, g.Intn(30)-10)
	case 10:
		k := uint(g.Intn(64))
		return strconv.FormatUint((uint64(1)<<k)-uint64(g.Intn(3))+1, 10)
	default:
		k := uint(g.Intn(63))
		return strconv.FormatInt(-(int64(1)<<k)+int64(g.Intn(3))-1, 10)
	}
}

func genStringText(g *rand.Rand, s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteRune(c)
		case c < 0x20:
			if c == '\n' && g.Intn(2) == 0 {
				b.WriteString(`\n`)
			} else {
				fmt.Fprintf(&b, `\u%04x`, c)
			}
		case c == '/' && g.Intn(2) == 0:
			b.WriteString(`\/`)
		case c < 0x10000 && g.Intn(6) == 0:
			fmt.Fprintf(&b, `\u%04X`, c)
		case c >= 0x10000 && g.Intn(2) == 0:
			c -= 0x10000
			fmt.Fprintf(&b, `\u%04x\u%04x`, 0xd800+(c>>10), 0xdc00+(c&0x3ff))
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func genWS(g *rand.Rand) string {
	if g.Intn(3) > 0 {
		return ""
	}
	return []string{" ", "\n", "\t", "\r\n", "  "}[g.Intn(5)]
}

// genJSON writes a well-formed document.
func genJSON(g *rand.Rand, depth int) string {
	w := func() string { return genWS(g) }
	k := g.Intn(10)
	if depth <= 0 && k >= 6 {
		k = g.Intn(6)
	}
	switch k {
	case 0:
		return "null"
	case 1:
		return []string{"true", "false"}[g.Intn(2)]
	case 2, 3:
		return genNumberText(g)
	case 4, 5:
		return genStringText(g, genString(g))
	case 6, 7:
		n := g.Intn(5)
		p := []string{}
		for i := 0; i < n; i++ {
			p = append(p, w()+genJSON(g, depth-1)+w())
		}
		return "[" + w() + strings.Join(p, ",") + "]"
	default:
		n := g.Intn(5)
		p := []string{}
		for i := 0; i < n; i++ {
			p = append(p, w()+genStringText(g, genString(g))+w()+":"+w()+genJSON(g, depth-1)+w())
		}
		return "{" + w() + strings.Join(p, ",") + "}"
	}
}

// mutateBytes damages a document.
func mutateBytes(g *rand.Rand, s string) string {
	b := []byte(s)
	alpha := []byte("{}[]\",:0123456789.eE+-ntfalsru \\\n\x00\xff/'")
	for k := 1 + g.Intn(2); k > 0; k-- {
		switch g.Intn(7) {
		case 0:
			if len(b) > 0 {
				b = b[:g.Intn(len(b))]
			}
		case 1:
			i := g.Intn(len(b) + 1)
			b = append(b[:i:i], append([]byte{alpha[g.Intn(len(alpha))]}, b[i:]...)...)
		case 2:
			if len(b) > 0 {
				b[g.Intn(len(b))] = alpha[g.Intn(len(alpha))]
			}
		case 3:
			if len(b) > 0 {
				i := g.Intn(len(b))
				b = append(b[:i:i], b[i+1:]...)
			}
		case 4:
			b = append(b, []string{" ", "\n", "x", "1", "{}", " null", ",", "]", "}", "\x00", "\"\"", " 1", "//"}[g.Intn(13)]...)
		case 5:
			b = append(append([]byte{}, b...), b...)
		case 6:
			b = append([]byte([]string{"\ufeff", " ", ",", "+", "0", "-", "[", "{"}[g.Intn(8)]), b...)
		}
	}
	return string(b)
}

// ---------------------------------------------------------------- random Go types

type typeOpts struct {
	noOmit     bool // no omitempty
	any        bool // fields of type any
	namedKinds bool
	noBytes    bool // no []uint8 / [n]uint8 (encoding/json uses base64)
	noF32      bool
	badKinds   bool // func, chan, complex, unexported
	skipped    bool // json:"-" and unexported fields
	noKeyKinds bool
}

type NamedInt int
type NamedStr string
type NamedBool bool
type NamedF float64
type NamedU8 uint8
type NamedSlice []string
type NamedMap map[string]int

var scalarTypes = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float64(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(""), reflect.TypeOf(""), reflect.TypeOf(0),
}
var namedTypes = []reflect.Type{reflect.TypeOf(NamedInt(0)), reflect.TypeOf(NamedStr("")), reflect.TypeOf(NamedBool(false)), reflect.TypeOf(NamedF(0)), reflect.TypeOf(NamedU8(0)),
	reflect.TypeOf(NamedSlice{}), reflect.TypeOf(NamedMap{})}
var anyType = reflect.TypeOf((*any)(nil)).Elem()

func genType(g *rand.Rand, depth int, o typeOpts) reflect.Type {
	for {
		t := genType1(g, depth, o)
		if o.noF32 && t.Kind() == reflect.Float32 {
			continue
		}
		if o.noBytes && (t.Kind() == reflect.Slice || t.Kind() == reflect.Array) && t.Elem().Kind() == reflect.Uint8 {
			continue
		}
		return t
	}
}

func genType1(g *rand.Rand, depth int, o typeOpts) reflect.Type {
	k := g.Intn(14)
	if depth <= 0 {
		k = g.Intn(6)
	}
	switch {
	case k < 5:
		return scalarTypes[g.Intn(len(scalarTypes))]
	case k == 5:
		if o.badKinds && g.Intn(2) == 0 {
			return []reflect.Type{reflect.TypeOf(func() {}), reflect.TypeOf(make(chan int)), reflect.TypeOf(complex64(0)), reflect.TypeOf(complex128(0)),
				reflect.TypeOf(uintptr(0)), reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf((*fmt.Stringer)(nil)).Elem()}[g.Intn(7)]
		}
		if o.any && g.Intn(2) == 0 {
			return anyType
		}
		if o.namedKinds {
			return namedTypes[g.Intn(len(namedTypes))]
		}
		return scalarTypes[g.Intn(len(scalarTypes))]
	case k == 6:
		return reflect.PointerTo(genType(g, depth-1, o))
	case k == 7, k == 8:
		return reflect.SliceOf(genType(g, depth-1, o))
	case k == 9:
		return reflect.ArrayOf(g.Intn(4), genType(g, depth-1, o))
	case k == 10:
		keys := []reflect.Type{reflect.TypeOf(""), reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(int8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(int64(0)),
			reflect.TypeOf(uint64(0)), reflect.TypeOf(NamedStr("")), reflect.TypeOf(NamedInt(0))}
		if o.noKeyKinds {
			keys = keys[:2]
		}
		return reflect.MapOf(keys[g.Intn(len(keys))], genType(g, depth-1, o))
	default:
		return genStructType(g, depth, o)
	}
}

func genStructType(g *rand.Rand, depth int, o typeOpts) reflect.Type {
	n := g.Intn(6)
	var fs []reflect.StructField
	names := []string{"A", "B", "Name", "ID", "Foo", "Bar", "URL", "X1", "Data"}
	g.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		f := reflect.StructField{Name: names[i], Type: genType(g, depth-1, o)}
		jn := ""
		switch g.Intn(5) {
		case 0:
			jn = strings.ToLower(names[i])
		case 1:
			jn = []string{"a_b", "x-y", "é", "with space", "id2", "$x", "k.v", "0"}[g.Intn(8)]
		case 2:
			if o.skipped {
				jn = "-"
			}
		}
		if jn != "" && jn != "-" && used[jn] {
			jn = ""
		}
		om := ""
		if !o.noOmit && g.Intn(3) == 0 && jn != "-" {
			switch f.Type.Kind() {
			case reflect.Interface, reflect.String, reflect.Pointer, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32,
				reflect.Uint64, reflect.Float32, reflect.Float64:
				om = ",omitempty"
			}
		}
		if jn != "" || om != "" {
			if !validTag(jn) {
				jn = ""
			}
			if jn != "" || om != "" {
				f.Tag = reflect.StructTag(`json:"` + jn + om + `"`)
			}
		}
		if g.Intn(25) == 0 && !used["-"] {
			jn = "-" // as a name
			if om == "" {
				om = ","
			}
			f.Tag = reflect.StructTag(`json:"` + jn + om + `"`)
			used["-"] = true
			fs = append(fs, f)
			continue
		}
		key := jn
		if key == "" {
			key = f.Name
		}
		if key != "-" && used[key] {
			continue
		}
		used[key] = true
		fs = append(fs, f)
	}
	if o.skipped && g.Intn(2) == 0 {
		fs = append(fs, reflect.StructField{Name: "hidden", PkgPath: "verifmon", Type: reflect.TypeOf("")})
	}
	return reflect.StructOf(fs)
}

// validTag: names encoding/json accepts too.
func validTag(s string) bool {
	if s == "-" || s == "" {
		return true
	}
	t := reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf(0), Tag: reflect.StructTag(`json:"` + s + `"`)}})
	b, _ := json.Marshal(reflect.New(t).Elem().Interface())
	var m map[string]any
	_ = json.Unmarshal(b, &m)
	_, ok := m[s]
	return ok
}

// ---------------------------------------------------------------- random values of a type

func genFloat(g *rand.Rand, bits int) float64 {
	switch g.Intn(6) {
	case 0:
		return []float64{0, 1, -1, 0.5, -0.5, 0.1, 1e21, 1e-7, 123456789, math.MaxFloat32, math.SmallestNonzeroFloat32, math.Copysign(0, -1)}[g.Intn(12)]
	case 1:
		if bits == 64 {
			return []float64{math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 1 << 53, 1<<53 + 2, math.Pi, 1e300, 1e-300}[g.Intn(8)]
		}
		return float64(math.Float32frombits(g.Uint32() &^ (0xff << 23)))
	case 2:
		if bits == 32 {
			return float64(math.Float32frombits(g.Uint32()&^(0xff<<23) | uint32(g.Intn(255))<<23))
		}
		return math.Float64frombits(g.Uint64()&^(0x7ff<<52) | uint64(g.Intn(2047))<<52)
	default:
		return g.NormFloat64() * 1000
	}
}

func genIntBits(g *rand.Rand, bits int) int64 {
	min, max := int64(-1)<<(bits-1), int64(1)<<(bits-1)-1
	switch g.Intn(5) {
	case 0:
		return []int64{0, 1, -1, min, max, min + 1, max - 1}[g.Intn(7)]
	case 1:
		return int64(g.Uint64()) >> (64 - bits)
	default:
		return int64(g.Intn(200) - 100)
	}
}

func genUintBits(g *rand.Rand, bits int) uint64 {
	max := ^uint64(0) >> (64 - bits)
	switch g.Intn(5) {
	case 0:
		return []uint64{0, 1, max, max - 1, max/2 + 1, max / 2}[g.Intn(6)]
	case 1:
		return g.Uint64() >> (64 - bits)
	default:
		return uint64(g.Intn(100))
	}
}

func genValue(g *rand.Rand, t reflect.Type, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	fillValue(g, v, depth)
	return v
}

func genAny(g *rand.Rand, depth int) any {
	switch g.Intn(8) {
	case 0:
		return nil
	case 1:
		return g.Intn(2) == 0
	case 2, 3:
		return genFloat(g, 64)
	case 4, 5:
		return genString(g)
	case 6:
		out := []any{}
		if depth > 0 {
			for i := g.Intn(4); i > 0; i-- {
				out = append(out, genAny(g, depth-1))
			}
		}
		return out
	default:
		out := map[string]any{}
		if depth > 0 {
			for i := g.Intn(4); i > 0; i-- {
				out[genString(g)] = genAny(g, depth-1)
			}
		}
		return out
	}
}

func fillValue(g *rand.Rand, v reflect.Value, depth int) {
	t := v.Type()
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(g.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(genIntBits(g, t.Bits()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(genUintBits(g, t.Bits()))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(genFloat(g, t.Bits()))
	case reflect.String:
		v.SetString(genString(g))
	case reflect.Pointer:
		if g.Intn(4) == 0 {
			return
		}
		// a pointer to a nil-able value encodes like a nil pointer: keep the inner value non-nil
		e := reflect.New(t.Elem())
		fillValue(g, e.Elem(), depth-1)
		switch t.Elem().Kind() {
		case reflect.Pointer, reflect.Slice, reflect.Map, reflect.Interface:
			if e.Elem().IsNil() {
				return
			}
		}
		v.Set(e)
	case reflect.Slice:
		switch g.Intn(6) {
		case 0:
			return
		case 1:
			v.Set(reflect.MakeSlice(t, 0, 0))
			return
		}
		n := 1 + g.Intn(3)
		if g.Intn(120) == 0 && isScalar(t.Elem()) {
			n = 65 + g.Intn(1500)
		}
		s := reflect.MakeSlice(t, n, n)
		for i := 0; i < n; i++ {
			fillValue(g, s.Index(i), depth-1)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fillValue(g, v.Index(i), depth-1)
		}
	case reflect.Map:
		if g.Intn(6) == 0 {
			return
		}
		m := reflect.MakeMap(t)
		n := g.Intn(4)
		if g.Intn(120) == 0 && isScalar(t.Elem()) {
			n = 20 + g.Intn(300)
		}
		for i := n; i > 0; i-- {
			k := reflect.New(t.Key()).Elem()
			fillValue(g, k, 0)
			e := reflect.New(t.Elem()).Elem()
			fillValue(g, e, depth-1)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if t.Field(i).IsExported() && t.Field(i).Tag.Get("json") != "-" {
				fillValue(g, v.Field(i), depth-1)
			}
		}
	case reflect.Interface:
		if t == anyType {
			if x := genAny(g, 2); x != nil {
				v.Set(reflect.ValueOf(x))
			}
		}
	}
}

func isScalar(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Bool, reflect.String, reflect.Float32, reflect.Float64, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return true
	}
	return false
}

func dump(x any) string {
	b, err := json.Marshal(x)
	s := string(b)
	if err != nil {
		s = fmt.Sprintf("%#v", x)
	}
	return s
}

// deepCopy: an equal value that shares no slice, map or pointer of exported data with v.
func deepCopy(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	out.Set(v)
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			out.Set(reflect.New(v.Type().Elem()))
			out.Elem().Set(deepCopy(v.Elem()))
		}
	case reflect.Interface:
		if !v.IsNil() {
			out.Set(deepCopy(v.Elem()))
		}
	case reflect.Slice:
		if !v.IsNil() {
			out.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
			for i := 0; i < v.Len(); i++ {
				out.Index(i).Set(deepCopy(v.Index(i)))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(deepCopy(v.Index(i)))
		}
	case reflect.Map:
		if !v.IsNil() {
			out.Set(reflect.MakeMap(v.Type()))
			for _, k := range v.MapKeys() {
				out.SetMapIndex(k, deepCopy(v.MapIndex(k)))
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				out.Field(i).Set(deepCopy(v.Field(i)))
			}
		}
	}
	return out
}
