//go:build go1.21

package ref

import (
	"bytes"
	"encoding/binary"
)

// Portable key-value storage, written out from its format: a 9 byte header, then an object: count, then for
// each entry a name, a type and a value. Values here are uint64 (integers, booleans), []byte (binaries) and
// []interface{} (objects and arrays; nil is an entry left out).

type KVKind int

const (
	KU8 KVKind = iota
	KU16
	KU32
	KU64
	KBool
	KBlob     // binary of any length, held in a slice
	KString   // binary of any length, held in a string
	KFixed    // binary of N bytes
	KList     // binary holding a packed list of N byte items
	KObj      // object
	KArrObj   // array of objects
	KArrBlob  // array of binaries held in slices
	KArrBlobS // array of binaries held in strings
)

type KVType struct {
	Kind   KVKind
	N      int
	Fields []KVField
}

type KVField struct {
	Name string
	T    KVType
	Omit bool
}

const (
	KVInt64 = iota + 1
	KVInt32
	KVInt16
	KVInt8
	KVUint64
	KVUint32
	KVUint16
	KVUint8
	KVDouble
	KVBinary
	KVBool
	KVObject
	KVArray
	KVFlag = 0x80
)

var KVHeader = []byte{0x01, 0x11, 0x01, 0x01, 0x01, 0x01, 0x02, 0x01, 0x01}

// KVSize is a size in the shortest form.
func KVSize(n uint64) []byte {
	switch {
	case n <= 63:
		return []byte{byte(n << 2)}
	case n <= 16383:
		return binary.LittleEndian.AppendUint16(nil, uint16(n<<2|1))
	case n <= 1073741823:
		return binary.LittleEndian.AppendUint32(nil, uint32(n<<2|2))
	}
	return binary.LittleEndian.AppendUint64(nil, n<<2|3)
}

func KVTypeByte(t KVType) byte {
	switch t.Kind {
	case KU8:
		return KVUint8
	case KU16:
		return KVUint16
	case KU32:
		return KVUint32
	case KU64:
		return KVUint64
	case KBool:
		return KVBool
	case KObj:
		return KVObject
	case KArrObj:
		return KVObject | KVFlag
	case KArrBlob, KArrBlobS:
		return KVBinary | KVFlag
	}
	return KVBinary
}

// KVMarks collects the offsets of the size prefixes while encoding.
type KVMarks []int

func kvValue(b []byte, t KVType, v interface{}, m *KVMarks) []byte {
	size := func(n int) {
		if m != nil {
			*m = append(*m, len(b))
		}
		b = append(b, KVSize(uint64(n))...)
	}
	switch t.Kind {
	case KU8, KBool:
		return append(b, byte(v.(uint64)))
	case KU16:
		return binary.LittleEndian.AppendUint16(b, uint16(v.(uint64)))
	case KU32:
		return binary.LittleEndian.AppendUint32(b, uint32(v.(uint64)))
	case KU64:
		return binary.LittleEndian.AppendUint64(b, v.(uint64))
	case KBlob, KString, KFixed, KList:
		x, _ := v.([]byte)
		size(len(x))
		return append(b, x...)
	case KObj:
		fs := v.([]interface{})
		n := 0
		for i := range t.Fields {
			if !(t.Fields[i].Omit && fs[i] == nil) {
				n++
			}
		}
		size(n)
		for i, f := range t.Fields {
			if f.Omit && fs[i] == nil {
				continue
			}
			b = append(b, byte(len(f.Name)))
			b = append(b, f.Name...)
			b = append(b, KVTypeByte(f.T))
			b = kvValue(b, f.T, fs[i], m)
		}
		return b
	case KArrObj, KArrBlob, KArrBlobS:
		it := KVType{Kind: KBlob}
		if t.Kind == KArrObj {
			it = KVType{Kind: KObj, Fields: t.Fields}
		}
		a, _ := v.([]interface{})
		size(len(a))
		for _, x := range a {
			b = kvValue(b, it, x, m)
		}
		return b
	}
	panic("kind")
}

func KVEncode(t KVType, v interface{}) []byte {
	return kvValue(append([]byte{}, KVHeader...), t, v, nil)
}

func KVEncodeMarks(t KVType, v interface{}) ([]byte, []int) {
	var m KVMarks
	b := kvValue(append([]byte{}, KVHeader...), t, v, &m)
	return b, m
}

type KVVerdict int

const (
	KVReject KVVerdict = iota
	KVAccept
	KVOpen // the format leaves it open: only that it does no harm is judged
)

type kvDec struct {
	b    []byte
	open bool
}

type kvStop struct{ open bool }

func (d *kvDec) take(n uint64) []byte {
	if n > uint64(len(d.b)) {
		panic(kvStop{})
	}
	x := d.b[:n]
	d.b = d.b[n:]
	return x
}

func (d *kvDec) size() uint64 {
	n := 1 << (d.peek()[0] & 3)
	x := d.take(uint64(n))
	v := uint64(0)
	for i := n - 1; i >= 0; i-- {
		v = v<<8 | uint64(x[i])
	}
	v >>= 2
	if len(KVSize(v)) != n {
		d.open = true
	}
	return v
}

func (d *kvDec) peek() []byte {
	if len(d.b) == 0 {
		panic(kvStop{})
	}
	return d.b[:1]
}

func leUint(x []byte) uint64 {
	v := uint64(0)
	for i := len(x) - 1; i >= 0; i-- {
		v = v<<8 | uint64(x[i])
	}
	return v
}

func (d *kvDec) value(t KVType, tb byte) interface{} {
	want := KVTypeByte(t)
	reject := func() { panic(kvStop{}) }
	switch t.Kind {
	case KU8, KU16, KU32, KU64, KBool:
		if tb != want {
			reject()
		}
		n := map[KVKind]uint64{KU8: 1, KU16: 2, KU32: 4, KU64: 8, KBool: 1}[t.Kind]
		v := leUint(d.take(n))
		if t.Kind == KBool && v > 1 {
			d.open = true
			v = 1
		}
		return v
	case KBlob, KList:
		if tb&KVFlag != 0 {
			// the same list, item by item
			panic(kvStop{true})
		}
		if tb != want {
			reject()
		}
		x := d.take(d.size())
		if t.Kind == KList && len(x)%t.N != 0 {
			reject()
		}
		return x
	case KString, KFixed:
		if tb != want {
			reject()
		}
		x := d.take(d.size())
		if t.Kind == KFixed && len(x) != t.N {
			reject()
		}
		return x
	case KObj:
		if tb != want {
			reject()
		}
		return d.object(t.Fields)
	case KArrObj, KArrBlob, KArrBlobS:
		if tb&KVFlag == 0 {
			reject()
		}
		n := d.size()
		if tb != want && (n == 0 || tb == KVFlag) {
			panic(kvStop{true})
		}
		if tb != want {
			reject()
		}
		var a []interface{}
		for i := uint64(0); i < n; i++ {
			if t.Kind == KArrObj {
				a = append(a, d.object(t.Fields))
			} else {
				a = append(a, d.take(d.size()))
			}
		}
		return a
	}
	panic("kind")
}

func (d *kvDec) object(fs []KVField) interface{} {
	out := make([]interface{}, len(fs))
	seen := make([]bool, len(fs))
	n := d.size()
	for i := uint64(0); i < n; i++ {
		name := string(d.take(uint64(d.take(1)[0])))
		k := -1
		for j := range fs {
			if fs[j].Name == name {
				k = j
			}
		}
		if k < 0 {
			panic(kvStop{})
		}
		if seen[k] {
			d.open = true
		}
		seen[k] = true
		tb := d.take(1)[0]
		if tb == 0 && len(d.b) > 0 {
			// reserved
			panic(kvStop{true})
		}
		out[k] = d.value(fs[k].T, tb)
	}
	return out
}

// KVDecode decodes by the schema. The value is given when it is accepted.
func KVDecode(t KVType, b []byte) (v interface{}, verdict KVVerdict) {
	if len(b) < 9 || !bytes.Equal(b[:9], KVHeader) {
		return nil, KVReject
	}
	d := &kvDec{b: b[9:]}
	defer func() {
		if r := recover(); r != nil {
			s, ok := r.(kvStop)
			if !ok {
				panic(r)
			}
			v = nil
			verdict = KVReject
			if s.open || d.open {
				verdict = KVOpen
			}
		}
	}()
	v = d.object(t.Fields)
	if len(d.b) > 0 || d.open {
		return v, KVOpen
	}
	return v, KVAccept
}

// KVEqual compares values; an entry left out equals zero or empty.
func KVEqual(t KVType, a, b interface{}) bool {
	switch t.Kind {
	case KU8, KU16, KU32, KU64, KBool:
		x, _ := a.(uint64)
		y, _ := b.(uint64)
		return x == y
	case KBlob, KString, KList:
		x, _ := a.([]byte)
		y, _ := b.([]byte)
		return bytes.Equal(x, y)
	case KFixed:
		x, _ := a.([]byte)
		y, _ := b.([]byte)
		if x == nil {
			x = make([]byte, t.N)
		}
		if y == nil {
			y = make([]byte, t.N)
		}
		return bytes.Equal(x, y)
	case KObj:
		x, _ := a.([]interface{})
		y, _ := b.([]interface{})
		if x == nil {
			x = make([]interface{}, len(t.Fields))
		}
		if y == nil {
			y = make([]interface{}, len(t.Fields))
		}
		for i, f := range t.Fields {
			if !KVEqual(f.T, x[i], y[i]) {
				return false
			}
		}
		return true
	}
	x, _ := a.([]interface{})
	y, _ := b.([]interface{})
	if len(x) != len(y) {
		return false
	}
	it := KVType{Kind: KBlob}
	if t.Kind == KArrObj {
		it = KVType{Kind: KObj, Fields: t.Fields}
	}
	for i := range x {
		if !KVEqual(it, x[i], y[i]) {
			return false
		}
	}
	return true
}
