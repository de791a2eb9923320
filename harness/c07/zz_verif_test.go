//go:build go1.21

package c07

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"

	"github.com/r3volut1oner/go-karbo/encoding/binary"
	"github.com/r3volut1oner/go-karbo/zz_verif/kvm"
	"github.com/r3volut1oner/go-karbo/zz_verif/ref"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
)

func short(v interface{}) string {
	if b, ok := v.([]byte); ok {
		return fmt.Sprintf("%x", b[:min(len(b), 500)])
	}
	return kvm.Show(v)
}

func check(c *vlib.Ctx, w int, m kvm.Msg, v kvm.L) {
	desc := func() string { return m.Name + " " + short(v) }
	c.Set(w, m.Name+" "+short(v))
	want := ref.KVEncode(m.T, v)
	msg := m.From(v)
	got, err := binary.Marshal(msg)
	if err != nil {
		c.Fail(desc(), "message is not encoded: %v", err)
	}
	if !bytes.Equal(got, want) {
		c.Fail(desc(), "encoding differs from the format:\n got  %s\n want %s", short(got), short(want))
	}
	p := reflect.New(reflect.TypeOf(msg))
	p.Elem().Set(reflect.ValueOf(msg))
	again, err := binary.Marshal(p.Elem().Interface())
	if err != nil || !bytes.Equal(again, want) {
		c.Fail(desc(), "second encoding differs: %s (%v)", short(again), err)
	}
	dec := m.New()
	if err := binary.Unmarshal(got, dec); err != nil {
		c.Fail(desc(), "own encoding is refused: %v", err)
	}
	back := m.To(dec)
	if !ref.KVEqual(m.T, back, v) {
		c.Fail(desc(), "decoded message differs: %s", short(back))
	}
	re, err := binary.Marshal(reflect.ValueOf(dec).Elem().Interface())
	if err != nil {
		c.Fail(desc(), "decoded message is not encoded: %v", err)
	}
	dec2 := m.New()
	if err := binary.Unmarshal(re, dec2); err != nil || !ref.KVEqual(m.T, m.To(dec2), v) {
		c.Fail(desc(), "message changes in a second pass (%v)", err)
	}
	// the entries of an object may come in any order
	c.Eval(1)
	if c.Distinct(m.Name + string(want)) {
		c.Sample(fmt.Sprintf("%s %x", m.Name, want[:min(len(want), 60)]))
	}
}

// reversed encodes with all objects' entries in the opposite order.
func reversed(t ref.KVType) ref.KVType {
	out := t
	out.Fields = nil
	for i := len(t.Fields) - 1; i >= 0; i-- {
		f := t.Fields[i]
		f.T = reversed(f.T)
		out.Fields = append(out.Fields, f)
	}
	return out
}

func reverseV(t ref.KVType, v interface{}) interface{} {
	a, ok := v.(kvm.L)
	if !ok {
		return v
	}
	switch t.Kind {
	case ref.KObj:
		out := kvm.L{}
		for i := len(a) - 1; i >= 0; i-- {
			out = append(out, reverseV(t.Fields[i].T, a[i]))
		}
		return out
	case ref.KArrObj:
		out := kvm.L{}
		for _, x := range a {
			out = append(out, reverseV(ref.KVType{Kind: ref.KObj, Fields: t.Fields}, x))
		}
		return out
	}
	return v
}

func TestVerif(t *testing.T) {
	c := vlib.New("C07")
	for _, m := range kvm.Msgs {
		m := m
		level := 0
		if c.Thorough {
			level = 1
		}
		// product of the fields' alphabets, the larger ones for small messages
		var parts [][]kvm.V
		build := func(lv int) []int {
			parts = nil
			var radix []int
			for _, f := range m.T.Fields {
				a := kvm.Alphabet(f.T, lv)
				parts = append(parts, a)
				radix = append(radix, len(a))
			}
			return radix
		}
		radix := build(1)
		limit := 300000
		if level == 1 {
			limit = 6000000
		}
		if vlib.Size(radix) > limit {
			radix = build(0)
		}
		n := vlib.Size(radix)
		c.Cov("cases "+m.Name, n)
		c.Each(m.Name, n, func(w, i int) {
			ix := vlib.Unrank(i, radix)
			v := make(kvm.L, len(parts))
			for k := range parts {
				v[k] = parts[k][ix[k]]
			}
			check(c, w, m, v)
			if i%7 == 0 {
				b := ref.KVEncode(reversed(m.T), reverseV(m.T, v))
				dec := m.New()
				if err := binary.Unmarshal(b, dec); err != nil || !ref.KVEqual(m.T, m.To(dec), v) {
					c.Fail(m.Name+" "+short(v), "entries in another order are decoded differently (%v)", err)
				}
				c.Eval(1)
			}
		})
		// each field alone over its larger alphabet
		base := make(kvm.L, len(m.T.Fields))
		build(0)
		for k := range parts {
			base[k] = parts[k][min(1, len(parts[k])-1)]
		}
		for k, f := range m.T.Fields {
			a := kvm.Alphabet(f.T, 2)
			k := k
			c.Each(m.Name+"."+f.Name, len(a), func(w, i int) {
				v := append(kvm.L{}, base...)
				v[k] = a[i]
				check(c, w, m, v)
			})
		}
	}
	if c.Thorough {
		// the 8 byte size prefix
		m := kvm.Msgs[5]
		for _, n := range []int{1<<30 - 1, 1 << 30} {
			c.Guard(0, fmt.Sprintf("PingResponse with %d bytes", n), func() {
				s := make([]byte, n)
				s[0], s[n-1] = 1, 2
				want := ref.KVEncode(m.T, kvm.L{s, uint64(7)})
				got, err := binary.Marshal(m.From(kvm.L{s, uint64(7)}))
				if err != nil || !bytes.Equal(got, want) {
					c.Fail(fmt.Sprintf("PingResponse with %d bytes", n), "encoding differs (%v)", err)
				}
				dec := m.New()
				if err := binary.Unmarshal(got, dec); err != nil || !ref.KVEqual(m.T, m.To(dec), kvm.L{s, uint64(7)}) {
					c.Fail(fmt.Sprintf("PingResponse with %d bytes", n), "decoding differs (%v)", err)
				}
				c.Eval(1)
			})
		}
	}
	c.Done()
}
