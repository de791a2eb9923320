//go:build go1.21

package c34

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"testing"

	kv "github.com/r3volut1oner/go-karbo/encoding/binary"
	"github.com/r3volut1oner/go-karbo/zz_verif/ref"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
)

var c *vlib.Ctx

// A value and the bytes it takes in the format, without its type.
type val struct {
	v    reflect.Value
	enc  []byte
	data []byte // of a binary
}

func (x val) zero() bool { return x.v.IsZero() }

// What an entry of a structure may be.
type kind struct {
	name string
	typ  reflect.Type
	opt  string // options of its tag
	tag  byte   // its type in the format
	unit int    // size of a packed list's item, 0 when it isn't one
	n    int    // length of a fixed binary
	vals []val
	full []val // these and larger ones
}

func le(n int, x uint64) []byte {
	b := binary.LittleEndian.AppendUint64(nil, x)
	return b[:n]
}

func scalar(name string, tag byte, n int, like interface{}, xs ...uint64) kind {
	t := reflect.TypeOf(like)
	k := kind{name: name, typ: t, tag: tag}
	for _, x := range xs {
		v := reflect.New(t).Elem()
		switch t.Kind() {
		case reflect.Float64:
			v.SetFloat(math.Float64frombits(x))
		case reflect.Bool:
			v.SetBool(x != 0)
		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			v.SetInt(int64(x))
		default:
			v.SetUint(x)
		}
		k.full = append(k.full, val{v: v, enc: le(n, x)})
	}
	k.vals = []val{k.full[0], k.full[1], k.full[len(k.full)-1]}
	return k
}

func numbers(bits uint, signed bool) []uint64 {
	top := uint64(1)<<(bits-1) - 1 + uint64(1)<<(bits-1)
	l := []uint64{0, 1, 0x0123456789abcdef & top}
	for i := uint(0); i < bits; i++ {
		l = append(l, 1<<i, 1<<i-1, ^(uint64(1)<<i)&top)
	}
	l = append(l, 254&top, 127&top, 128&top, top-1, top)
	if signed {
		for i, x := range l { // sign extended
			s := 64 - bits
			l[i] = uint64(int64(x<<s) >> s)
		}
	}
	return l
}

func blob(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + n + 1)
	}
	return b
}

func binVal(v reflect.Value, data []byte) val {
	return val{v: v, enc: append(ref.KVSize(uint64(len(data))), data...), data: data}
}

var lengths = []int{0, 1, 3, 2, 4, 8, 62, 63, 64, 65, 255, 256, 16382, 16383, 16384, 16385, 65536, 1 << 20}

func stringKind(name string, like interface{}) kind {
	k := kind{name: name, typ: reflect.TypeOf(like), tag: ref.KVBinary}
	for _, n := range lengths {
		v := reflect.New(k.typ).Elem()
		v.SetString(string(blob(n)))
		k.full = append(k.full, binVal(v, blob(n)))
	}
	k.vals = k.full[:3]
	return k
}

func fixedKind(name string, like interface{}) kind {
	k := kind{name: name, typ: reflect.TypeOf(like), tag: ref.KVBinary}
	k.n = k.typ.Len()
	for i := 0; i < 3; i++ {
		v := reflect.New(k.typ).Elem()
		b := make([]byte, k.n)
		if i > 0 {
			b = blob(k.n + i*0)
			for j := range b {
				b[j] ^= byte(i)
			}
		}
		reflect.Copy(v, reflect.ValueOf(b))
		k.full = append(k.full, binVal(v, b))
	}
	k.vals = k.full
	return k
}

// packed is a binary holding items of unit bytes one after another; put stores an item.
func packed(name string, like interface{}, unit int, put func(v reflect.Value, b []byte)) kind {
	k := kind{name: name, typ: reflect.TypeOf(like), tag: ref.KVBinary, unit: unit}
	for _, n := range lengths {
		if n*unit > 1<<20 {
			continue
		}
		v := reflect.MakeSlice(k.typ, n, n)
		b := blob(n * unit)
		for i := 0; i < n; i++ {
			put(v.Index(i), b[i*unit:][:unit])
		}
		if n == 0 {
			v = reflect.Zero(k.typ)
		}
		k.full = append(k.full, binVal(v, b))
	}
	k.vals = k.full[:3]
	return k
}

func leU(b []byte) (x uint64) {
	for i := len(b) - 1; i >= 0; i-- {
		x = x<<8 | uint64(b[i])
	}
	return
}

func putU(v reflect.Value, b []byte) { v.SetUint(leU(b)) }
func putI(v reflect.Value, b []byte) {
	s := uint(64 - 8*len(b))
	v.SetInt(int64(leU(b)<<s) >> s)
}
func putF(v reflect.Value, b []byte) { v.SetFloat(math.Float64frombits(leU(b))) }
func putA(v reflect.Value, b []byte) { reflect.Copy(v, reflect.ValueOf(b)) }

// list is an array of items, each in its own encoding.
func list(of kind, ns []int) kind {
	k := kind{name: "array of " + of.name, typ: reflect.SliceOf(of.typ), opt: "array", tag: of.tag | ref.KVFlag}
	for _, n := range ns {
		v := reflect.MakeSlice(k.typ, n, n)
		if n == 0 {
			v = reflect.Zero(k.typ)
		}
		enc := ref.KVSize(uint64(n))
		for i := 0; i < n; i++ {
			x := of.vals[(i+n)%len(of.vals)]
			v.Index(i).Set(x.v)
			enc = append(enc, x.enc...)
		}
		k.full = append(k.full, val{v: v, enc: enc})
	}
	k.vals = k.full[:3]
	return k
}

type entry struct {
	name string
	k    kind
	omit bool
}

func structType(es []entry) reflect.Type {
	var fs []reflect.StructField
	for i, e := range es {
		tag := e.name
		if e.k.opt != "" {
			tag += "," + e.k.opt
		}
		if e.omit {
			tag += ",omitempty"
		}
		fs = append(fs, reflect.StructField{Name: "F" + strconv.Itoa(i), Type: e.k.typ, Tag: reflect.StructTag("binary:" + strconv.Quote(tag))})
		if i%3 == 1 { // not a part of the structure
			fs = append(fs, reflect.StructField{Name: "X" + strconv.Itoa(i), Type: reflect.TypeOf(0)})
		}
	}
	return reflect.StructOf(fs)
}

// object is one value of a structure.
func object(t reflect.Type, es []entry, xs []val) val {
	v := reflect.New(t).Elem()
	n := 0
	var body []byte
	for i, e := range es {
		v.FieldByName("F" + strconv.Itoa(i)).Set(xs[i].v)
		if e.omit && xs[i].zero() {
			continue
		}
		n++
		body = append(body, byte(len(e.name)))
		body = append(body, e.name...)
		body = append(body, e.k.tag)
		body = append(body, xs[i].enc...)
	}
	return val{v: v, enc: append(ref.KVSize(uint64(n)), body...)}
}

func show(es []entry, xs []val) string {
	var s []string
	for i, e := range es {
		o := ""
		if e.omit {
			o = "?"
		}
		x := ""
		if xs != nil {
			x = fmt.Sprintf(" = %s", cut(fmt.Sprintf("%#v", xs[i].v.Interface()), 100))
		}
		s = append(s, fmt.Sprintf("%s%s %s%s", cut(strconv.Quote(e.name), 30), o, e.k.name, x))
	}
	return cut("{"+strings.Join(s, "; ")+"}", 800)
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// same compares values; an absent list equals an empty one.
func same(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func framed(b []byte) []byte { return append(append([]byte{}, ref.KVHeader...), b...) }

// decode never panics, by the property.
func decode(desc string, b []byte, into interface{}) (err error) {
	if p := vlib.Try(func() { err = kv.Unmarshal(b, into) }); p != "" {
		c.Fail(desc, "decoding %x panics: %s", b[:min(len(b), 200)], p)
	}
	return
}

func encode(desc string, v interface{}) (b []byte, err error) {
	if p := vlib.Try(func() { b, err = kv.Marshal(v) }); p != "" {
		c.Fail(desc, "encoding panics: %s", p)
	}
	return
}

// fill sets everything to something, to see it replaced.
func fill(v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fill(v.Field(i))
		}
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), 2, 5))
		fill(v.Index(0))
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(v.Index(i))
		}
	case reflect.String:
		v.SetString("before")
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Float64:
		v.SetFloat(-2.5)
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(-99)
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(77)
	}
}

func check(w int, es []entry, xs []val) {
	t := structType(es)
	x := object(t, es, xs)
	desc := show(es, xs)
	c.Set(w, desc)
	want := framed(x.enc)
	got, err := encode(desc, x.v.Interface())
	if err != nil {
		c.Fail(desc, "not encoded: %v", err)
		return
	}
	if !bytes.Equal(got, want) {
		c.Fail(desc, "encoding differs from the format:\n got  %x\n want %x", got[:min(len(got), 400)], want[:min(len(want), 400)])
		return
	}
	if !same(x.v, object(t, es, xs).v) {
		c.Fail(desc, "encoding changes the structure")
	}
	p := reflect.New(t)
	if err := decode(desc, want, p.Interface()); err != nil {
		c.Fail(desc, "own encoding is refused: %v", err)
		return
	}
	if !same(p.Elem(), x.v) {
		c.Fail(desc, "comes back as %s", cut(fmt.Sprintf("%#v", p.Elem().Interface()), 800))
	}
	// into a structure in use, everything given is replaced
	q := reflect.New(t)
	fill(q.Elem())
	if err := decode(desc, want, q.Interface()); err != nil {
		c.Fail(desc, "own encoding is refused when decoded into a used structure: %v", err)
		return
	}
	for i, e := range es {
		f := "F" + strconv.Itoa(i)
		if !(e.omit && xs[i].zero()) && !same(q.Elem().FieldByName(f), x.v.FieldByName(f)) {
			c.Fail(desc, "decoded into a used structure, %s comes back as %s", strconv.Quote(e.name), cut(fmt.Sprintf("%#v", q.Elem().FieldByName(f).Interface()), 400))
		}
		g := "X" + strconv.Itoa(i)
		if fv := p.Elem().FieldByName(g); fv.IsValid() && fv.Int() != 0 {
			c.Fail(desc, "a field without a name is set")
		}
	}
	// one structure after another from and to the same memory
	again, err := encode(desc, p.Elem().Interface())
	if err != nil || !bytes.Equal(again, want) {
		if !emptied(x.v) {
			c.Fail(desc, "decoded structure is encoded differently (%v): %x", err, again[:min(len(again), 400)])
		}
	}
	c.Eval(4)
	if c.Distinct(string(want)) {
		c.Sample(cut(desc, 200))
	}
}

// emptied tells of lists which are there but empty.
func emptied(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Slice:
		if v.Len() == 0 {
			return true
		}
		for i := 0; i < v.Len() && v.Type().Elem().Kind() >= reflect.Array; i++ {
			if emptied(v.Index(i)) {
				return true
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if emptied(v.Field(i)) {
				return true
			}
		}
	}
	return false
}

// cuts: every proper prefix is refused.
func cuts(w int, es []entry, xs []val) {
	t := structType(es)
	x := object(t, es, xs)
	b := framed(x.enc)
	if len(b) > 700 {
		return
	}
	desc := show(es, xs)
	for n := 0; n < len(b); n++ {
		c.Set(w, fmt.Sprintf("%s cut to %d bytes", desc, n))
		if err := decode(desc, b[:n:n], reflect.New(t).Interface()); err == nil {
			c.Fail(desc, "%d bytes of %d are accepted", n, len(b))
		}
		c.Eval(1)
	}
}

type (
	nu8  uint8
	nu16 uint16
	nu32 uint32
	nu64 uint64
	ni32 int32
	ni64 int64
	nf64 float64
	nb   bool
	nstr string
	nby  []byte
	nfix [16]byte
	npk  [][8]byte
	pair struct {
		A uint16
		B uint32
	}
	deep struct {
		P pair
		X [3]uint8
		N int16
	}
)

func putPair(v reflect.Value, b []byte) {
	v.Field(0).SetUint(leU(b[:2]))
	v.Field(1).SetUint(leU(b[2:6]))
}

func putDeep(v reflect.Value, b []byte) {
	putPair(v.Field(0), b)
	reflect.Copy(v.Field(1), reflect.ValueOf(b[6:9]))
	putI(v.Field(2), b[9:11])
}

func floats() []uint64 {
	l := []uint64{0, math.Float64bits(1), math.Float64bits(-1.5), math.Float64bits(math.Inf(1)), math.Float64bits(math.Inf(-1)), 0x7ff8000000000001, 0xfff8000000000abc, 1, math.Float64bits(math.MaxFloat64)}
	for i := uint(0); i < 63; i++ {
		l = append(l, 1<<i)
	}
	return append(l, 0x0123456789abcdef)
}

func simple() []kind {
	ks := []kind{
		scalar("uint8", ref.KVUint8, 1, uint8(0), numbers(8, false)...),
		scalar("uint16", ref.KVUint16, 2, uint16(0), numbers(16, false)...),
		scalar("uint32", ref.KVUint32, 4, uint32(0), numbers(32, false)...),
		scalar("uint64", ref.KVUint64, 8, uint64(0), numbers(64, false)...),
		scalar("int8", ref.KVInt8, 1, int8(0), numbers(8, true)...),
		scalar("int16", ref.KVInt16, 2, int16(0), numbers(16, true)...),
		scalar("int32", ref.KVInt32, 4, int32(0), numbers(32, true)...),
		scalar("int64", ref.KVInt64, 8, int64(0), numbers(64, true)...),
		scalar("float64", ref.KVDouble, 8, float64(0), floats()...),
		scalar("bool", ref.KVBool, 1, false, 0, 1, 1),
		scalar("named uint8", ref.KVUint8, 1, nu8(0), numbers(8, false)...),
		scalar("named uint16", ref.KVUint16, 2, nu16(0), numbers(16, false)...),
		scalar("named uint32", ref.KVUint32, 4, nu32(0), numbers(32, false)...),
		scalar("named uint64", ref.KVUint64, 8, nu64(0), numbers(64, false)...),
		scalar("named int32", ref.KVInt32, 4, ni32(0), numbers(32, true)...),
		scalar("named int64", ref.KVInt64, 8, ni64(0), numbers(64, true)...),
		scalar("named float64", ref.KVDouble, 8, nf64(0), floats()...),
		scalar("named bool", ref.KVBool, 1, nb(false), 0, 1, 1),
		stringKind("string", ""),
		stringKind("named string", nstr("")),
		fixedKind("1 byte", [1]byte{}),
		fixedKind("16 bytes", [16]byte{}),
		fixedKind("named 16 bytes", nfix{}),
		fixedKind("32 bytes", [32]byte{}),
		fixedKind("64 bytes", [64]byte{}),
		packed("bytes", []byte{}, 1, putU),
		packed("named bytes", nby{}, 1, putU),
		packed("packed uint16", []uint16{}, 2, putU),
		packed("packed uint32", []uint32{}, 4, putU),
		packed("packed uint64", []uint64{}, 8, putU),
		packed("packed int8", []int8{}, 1, putI),
		packed("packed int16", []int16{}, 2, putI),
		packed("packed int32", []int32{}, 4, putI),
		packed("packed int64", []int64{}, 8, putI),
		packed("packed float64", []float64{}, 8, putF),
		packed("packed [4]byte", [][4]byte{}, 4, putA),
		packed("named packed [8]byte", npk{}, 8, putA),
		packed("packed [32]byte", [][32]byte{}, 32, putA),
		packed("packed struct", []pair{}, 6, putPair),
		packed("packed nested struct", []deep{}, 11, putDeep),
	}
	n := len(ks)
	ns := []int{0, 1, 3, 2, 62, 63, 64, 65, 16383, 16384}
	for i := 0; i < n; i++ {
		l := ns
		if i%5 != 0 {
			l = ns[:8]
		}
		ks = append(ks, list(ks[i], l))
	}
	return ks
}

// nested makes structures of these entries an entry themselves.
func nested(es []entry, n int) kind {
	t := structType(es)
	k := kind{name: show(es, nil), typ: t, tag: ref.KVObject}
	for j := 0; j < n; j++ {
		var xs []val
		for i, e := range es {
			xs = append(xs, e.k.vals[(j+j*i+i*(j&1))%len(e.k.vals)])
		}
		k.full = append(k.full, object(t, es, xs))
	}
	k.vals = k.full
	return k
}

func alone(ks []kind) {
	names := []string{"a", "\x00", "a b", "\xff\xfe", strings.Repeat("n", 63), strings.Repeat("n", 64), strings.Repeat("long", 63) + "abc"}
	c.Each("one entry", len(ks), func(w, i int) {
		k := ks[i]
		for j, x := range k.full {
			for _, omit := range []bool{false, true} {
				for m, name := range names {
					if m > 0 && (j > 3 || x.data != nil && len(x.data) > 1000) {
						continue
					}
					check(w, []entry{{name, k, omit}}, []val{x})
				}
			}
			cuts(w, []entry{{"a", k, false}}, []val{x})
		}
		c.Outcome(fmt.Sprintf("entries of type %#02x", k.tag))
	})
}

// long: arrays around every size at which their count takes another form or another number of bits
func long(ks []kind) {
	ns := []int{0, 0, 0, 127, 128, 255, 256, 257, 4095, 4096, 16382, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 100000, 131072}
	if c.Thorough {
		ns = append(ns, 262144, 524288, 1<<20-1, 1<<20, 1<<20+1)
	}
	var of []kind
	for _, k := range ks {
		switch k.name {
		case "uint8", "uint16", "uint64", "int32", "float64", "bool", "string", "16 bytes", "bytes", "packed struct", "named uint32":
			of = append(of, k)
		}
	}
	type job struct {
		k kind
		n int
	}
	var jobs []job
	for _, n := range ns[3:] {
		for _, k := range of {
			jobs = append(jobs, job{k, n})
		}
	}
	c.Each("long", len(jobs), func(w, i int) {
		j := jobs[len(jobs)-1-i]
		few := j.k
		few.vals = few.vals[:3]
		k := list(few, []int{1, 0, 2, j.n})
		for _, omit := range []bool{false, true} {
			check(w, []entry{{"a", k, omit}, {"b", few, false}}, []val{k.full[3], few.vals[1]})
		}
	})
}

func several(ks []kind) {
	n := len(ks)
	c.Each("two entries", n*n, func(w, i int) {
		a, b := ks[i/n], ks[i%n]
		for o := 0; o < 4; o++ {
			es := []entry{{"a", a, o&1 != 0}, {"ab", b, o&2 != 0}}
			for _, x := range a.vals {
				for _, y := range b.vals {
					check(w, es, []val{x, y})
				}
			}
		}
		cuts(w, []entry{{"a", a, false}, {"b", b, true}}, []val{a.vals[1], b.vals[1]})
	})
	// one kind of each type and holder
	var few []kind
	seen := map[string]bool{}
	for _, k := range ks {
		key := fmt.Sprint(k.tag, k.typ.Kind(), k.unit > 1)
		if c.Thorough || !seen[key] {
			seen[key] = true
			few = append(few, k)
		}
	}
	m := len(few)
	c.Cov("kinds in threes", m)
	c.Each("three entries", m*m*m, func(w, i int) {
		ix := vlib.Unrank(i, []int{m, m, m})
		es := []entry{{"z", few[ix[0]], i%2 != 0}, {"y", few[ix[1]], i%3 == 0}, {"x", few[ix[2]], i%5 < 2}}
		for j := 0; j < 2; j++ {
			check(w, es, []val{es[0].k.vals[j], es[1].k.vals[j*2], es[2].k.vals[1-j]})
		}
	})
	// as many entries as there are
	c.Each("many entries", 8, func(w, i int) {
		n := []int{62, 63, 64, 65, 127, 128, 255, 300}[i]
		for o := 0; o < 3; o++ {
			var es []entry
			var xs []val
			for j := 0; j < n; j++ {
				k := ks[(j*7+o)%len(ks)]
				es = append(es, entry{fmt.Sprintf("%c%d", 'a'+j%26, j), k, j%3 == o})
				xs = append(xs, k.vals[(j+o)%3])
			}
			check(w, es, xs)
		}
		// left out, all but the last few
		k := ks[1]
		for left := 0; left < 3; left++ {
			var es []entry
			var xs []val
			for j := 0; j < n; j++ {
				es = append(es, entry{fmt.Sprint("e", j), k, true})
				x := k.vals[0]
				if j >= n-left {
					x = k.vals[1]
				}
				xs = append(xs, x)
			}
			check(w, es, xs)
		}
	})
}

func deeper(ks []kind) {
	var level []kind
	for i, k := range ks {
		level = append(level,
			nested([]entry{{"a", k, false}}, 3),
			nested([]entry{{"a", k, true}}, 3),
			nested([]entry{{"a", ks[0], i%2 == 0}, {"b", k, true}}, 3),
			nested([]entry{{"b", k, false}, {"a", ks[(i+7)%len(ks)], true}}, 3))
	}
	level = append(level, nested(nil, 3))
	depth := 3
	if c.Thorough {
		depth = 5
	}
	for d := 1; d <= depth; d++ {
		var here []kind
		for _, k := range level {
			here = append(here, k, list(k, []int{0, 1, 3, 2}))
		}
		c.Each(fmt.Sprint("depth ", d), len(here), func(w, i int) {
			k := here[i]
			for _, omit := range []bool{false, true} {
				for j, x := range k.full {
					check(w, []entry{{"a", k, omit}}, []val{x})
					y := ks[i%len(ks)]
					check(w, []entry{{"y", y, omit}, {"a", k, omit}, {"z", y, !omit}}, []val{y.vals[j%3], x, y.vals[(j+1)%3]})
				}
				cuts(w, []entry{{"a", k, omit}}, []val{k.full[1]})
			}
		})
		var next []kind
		for i, k := range here {
			next = append(next, nested([]entry{{"n", k, i%3 == 0}}, 3))
			if i%2 == 0 {
				next = append(next, nested([]entry{{"m", ks[i%len(ks)], true}, {"n", k, i%3 != 0}}, 3))
			}
		}
		// keep the kinds spread
		if most := 800; !c.Thorough && len(next) > most {
			var l []kind
			for i := 0; i < most; i++ {
				l = append(l, next[i*len(next)/most])
			}
			next = l
		}
		level = next
	}
	// the same level of nesting many times over
	k := ks[2]
	for d := 0; d < 40; d++ {
		if d%2 == 0 {
			k = nested([]entry{{"d", k, false}}, 3)
		} else {
			k = list(k, []int{1, 0, 2})
		}
		for _, x := range k.full {
			if len(x.enc) < 1<<20 {
				check(0, []entry{{"top", k, false}}, []val{x})
			}
		}
		if len(k.vals[2].enc) > 1<<20 {
			break
		}
	}
}

// crossed: what is written as one kind and read as another.
func crossed(ks []kind) {
	for i, k := range ks[:80] {
		if i%3 == 0 {
			ks = append(ks, nested([]entry{{"a", k, false}}, 3))
		}
	}
	n := len(ks)
	for _, k := range ks[80:n] {
		if n < 200 {
			ks = append(ks, list(k, []int{0, 1, 3}))
		}
	}
	n = len(ks)
	c.Cov("kinds crossed", n)
	c.Each("crossed", n*n, func(w, i int) {
		a, b := ks[i/n], ks[i%n]
		es, fs := []entry{{"a", a, false}}, []entry{{"a", b, false}}
		s, t := structType(es), structType(fs)
		xs := a.vals
		if a.data() {
			xs = a.full[:min(len(a.full), 10)]
		}
		for _, x := range xs {
			enc := framed(object(s, es, []val{x}).enc)
			desc := show(es, []val{x}) + " read as " + show(fs, nil)
			c.Set(w, desc)
			p := reflect.New(t)
			err := decode(desc, enc, p.Interface())
			c.Eval(1)
			got := p.Elem().Field(0)
			switch {
			case a.tag&ref.KVFlag != 0 && b.tag&ref.KVFlag == 0 && b.typ.Kind() == reflect.Slice:
				// the same list, item by item
			case a.tag == ref.KVBinary && b.tag&ref.KVFlag != 0:
				// the same list, packed
			case a.tag&ref.KVFlag != 0 && a.tag != b.tag && x.v.Len() == 0 && b.typ.Kind() == reflect.Slice:
				// no items of any type
			case a.tag != b.tag:
				if err == nil {
					c.Fail(desc, "accepted")
				}
			case a.tag == ref.KVBinary:
				ok := true
				if b.n > 0 {
					ok = len(x.data) == b.n
				}
				if b.unit > 0 {
					ok = len(x.data)%b.unit == 0
				}
				if ok != (err == nil) {
					c.Fail(desc, "accepted: %v, must be %v (%v)", err == nil, ok, err)
				} else if ok {
					re, err := encode(desc, p.Elem().Interface())
					if err != nil || !bytes.Equal(re, enc) {
						c.Fail(desc, "read as %s (%v)", cut(fmt.Sprintf("%#v", got.Interface()), 400), err)
					}
				}
			case a.tag < ref.KVBinary || a.tag == ref.KVBool:
				if err != nil {
					c.Fail(desc, "refused: %v", err)
				} else if got.Convert(x.v.Type()).Interface() != x.v.Interface() && x.v.Kind() != reflect.Float64 {
					c.Fail(desc, "read as %v", got.Interface())
				}
			case a.typ == b.typ:
				if err != nil || !same(got, x.v) {
					c.Fail(desc, "read as %s (%v)", cut(fmt.Sprintf("%#v", got.Interface()), 400), err)
				}
			}
			c.Outcome(fmt.Sprintf("crossed, refused: %v", err != nil))
		}
		// under another name
		if i%n == 0 {
			p := reflect.New(structType([]entry{{"b", a, false}, {"A", a, true}, {"aa", a, true}, {"", a, true}}))
			for _, x := range a.vals {
				enc := framed(object(s, es, []val{x}).enc)
				if err := decode(show(es, []val{x}), enc, p.Interface()); err == nil {
					c.Fail(show(es, []val{x}), "accepted as a structure without an entry of this name")
				}
			}
		}
	})
}

func (k kind) data() bool { return k.tag == ref.KVBinary }

// foreign: kinds outside the format are refused, or survive; and never do harm.
func foreign(ks []kind) {
	type T = interface{}
	type mybyte uint8
	u := []struct {
		v   T
		opt string
	}{
		{int(5), ""}, {uint(5), ""}, {float32(1), ""}, {complex64(1), ""}, {complex128(2), ""}, {uintptr(3), ""},
		{map[string]int{"a": 1}, ""}, {map[uint8]uint8(nil), ""}, {new(int), ""}, {new(uint32), ""}, {(*uint32)(nil), ""}, {(*pair)(nil), ""}, {&pair{}, ""},
		{make(chan int), ""}, {func() {}, ""}, {fmt.Errorf("x"), ""},
		{[]string{"a"}, ""}, {[]string(nil), ""}, {[]int{1}, ""}, {[]int(nil), ""}, {[]int{1}, "array"}, {[][]byte{{1}}, ""}, {[][]byte{{1, 2}, {3}}, "omitempty"},
		{[]map[string]int{{}}, "array"}, {[]*uint32{nil}, "array"}, {[]*pair{nil, {}}, "array"}, {[]interface{}{1}, "array"}, {[]interface{}{nil}, ""},
		{[2]uint16{1, 2}, ""}, {[2]uint32{1, 2}, "array"}, {[2]string{"a", "b"}, "array"}, {[2]string{"a", "b"}, ""}, {[4]int8{1}, ""}, {[4]bool{true}, ""}, {[4]mybyte{1}, ""}, {[4]int8{1}, "array"}, {[0]byte{}, ""}, {[0]uint16{}, ""},
		{[]mybyte{1, 2}, ""}, {[]bool{true, false}, ""}, {[]float32{1}, ""}, {[]struct{ A int }{{1}}, ""}, {[]struct{ A string }{{"1"}}, ""}, {[]struct{}{{}}, ""}, {[][0]byte{{}}, ""},
		{struct{ A int }{1}, ""}, {struct {
			A int `binary:"a"`
		}{1}, ""}, {struct {
			A *uint32 `binary:"a"`
		}{}, ""}, {[]struct {
			A []int `binary:"a"`
		}{{}, {[]int{1}}}, "array"}, {struct {
			A uint8 `binary:"a"`
			B uint8 `binary:"a"`
		}{1, 2}, ""}, {[]struct {
			A uint8 `binary:"a"`
			B uint8 `binary:"a"`
		}{{1, 2}}, "array"}, {"s", "array"}, {uint8(3), "array"}, {pair{1, 2}, "array"}, {uint32(3), "omitempty,array"}, {[]uint16{1}, "other"},
		{[][]uint16{{1}, {2, 3}}, "array"}, {[][]string{{"a"}}, "array"}, {[3][]byte{{1}}, "array"}, {[2]pair{{1, 2}}, ""}, {[2]pair{{1, 2}}, "array"},
	}
	c.Each("foreign", len(u), func(w, i int) {
		k := kind{name: fmt.Sprintf("%T (%s)", u[i].v, u[i].opt), typ: reflect.TypeOf(u[i].v), opt: u[i].opt}
		for _, omit := range []bool{false, true} {
			for _, v := range []reflect.Value{reflect.ValueOf(u[i].v), reflect.Zero(k.typ)} {
				for _, y := range ks {
					es := []entry{{"a", k, omit}, {"b", y, false}}
					t := structType(es)
					x := reflect.New(t).Elem()
					x.Field(0).Set(v)
					x.FieldByName("F1").Set(y.vals[1].v)
					desc := show(es, nil) + fmt.Sprintf(" a = %#v", v.Interface())
					c.Set(w, desc)
					c.Eval(1)
					b, err := encode(desc, x.Interface())
					c.Outcome(fmt.Sprintf("foreign, encoded: %v", err == nil))
					if err != nil {
						if len(b) > 0 {
							c.Fail(desc, "refused with %x", b)
						}
					} else {
						p := reflect.New(t)
						err := decode(desc, b, p.Interface())
						c.Outcome(fmt.Sprintf("foreign, decoded: %v", err == nil))
						if err == nil && !same(p.Elem(), x) && !hasInt(k.typ) {
							c.Fail(desc, "comes back as %s", cut(fmt.Sprintf("%#v", p.Elem().Interface()), 400))
						}
					}
				}
			}
		}
		// and whatever is found in a's place
		for _, y := range ks {
			es := []entry{{"a", y, false}}
			fs := []entry{{"a", k, false}}
			for _, x := range y.full[:min(len(y.full), 10)] {
				enc := framed(object(structType(es), es, []val{x}).enc)
				desc := show(es, []val{x}) + " read as " + show(fs, nil)
				c.Set(w, desc)
				err := decode(desc, enc, reflect.New(structType(fs)).Interface())
				c.Eval(1)
				c.Outcome(fmt.Sprintf("into foreign, refused: %v", err != nil))
			}
		}
	})
	// names
	c.Each("names", len(ks), func(w, i int) {
		k := ks[i]
		for _, name := range []string{strings.Repeat("n", 256), strings.Repeat("n", 300), strings.Repeat("n", 512)} {
			es := []entry{{name, k, false}}
			t := structType(es)
			if b, err := encode(show(es, nil), object(t, es, []val{k.vals[1]}).v.Interface()); err == nil {
				c.Fail(show(es, nil), "a name of %d bytes is encoded: %x", len(name), b[:min(len(b), 100)])
			}
			c.Eval(1)
		}
		for _, l := range [][]entry{{{"a", k, false}, {"a", k, false}}, {{"a", k, true}, {"b", k, false}, {"a", ks[3], true}}} {
			t := structType(l)
			if _, err := encode(show(l, nil), reflect.New(t).Elem().Interface()); err == nil {
				c.Fail(show(l, nil), "two entries of one name are encoded")
			}
			enc := framed(object(structType(l[:1]), l[:1], []val{k.vals[1]}).enc)
			if err := decode(show(l, nil), enc, reflect.New(t).Interface()); err == nil {
				c.Fail(show(l, nil), "an entry is decoded into one of two of its name")
			}
			c.Eval(2)
		}
	})
}

// hasInt tells of structures with untagged fields: these are not a part of the format.
func hasInt(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Slice, reflect.Array, reflect.Ptr:
		return hasInt(t.Elem())
	case reflect.Struct:
		return true
	}
	return false
}

func TestVerif(t *testing.T) {
	c = vlib.New("C34")
	ks := simple()
	c.Cov("kinds of entries", len(ks))
	alone(ks)
	long(ks)
	several(ks)
	deeper(ks)
	crossed(ks)
	foreign(ks)
	c.Done()
}
