//go:build go1.21

package c08

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime/metrics"
	"testing"

	kv "github.com/r3volut1oner/go-karbo/encoding/binary"
	"github.com/r3volut1oner/go-karbo/zz_verif/kvm"
	"github.com/r3volut1oner/go-karbo/zz_verif/ref"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
)

var c *vlib.Ctx

// decode runs one payload and compares with the reference verdict.
func decode(w int, m *kvm.Msg, b []byte, how string) ref.KVVerdict {
	v, verdict := ref.KVDecode(m.T, b)
	dec := m.New()
	c.Set(w, fmt.Sprintf("%s %s: %x", m.Name, how, b[:min(len(b), 400)]))
	err := kv.Unmarshal(b, dec)
	c.Eval(1)
	fail := func(s string) {
		c.Fail(fmt.Sprintf("%s %s: %x", m.Name, how, b[:min(len(b), 1500)]), "%s (%v)", s, err)
	}
	switch verdict {
	case ref.KVReject:
		if err == nil {
			fail("a payload that is not this message is accepted")
		}
	case ref.KVAccept:
		if err != nil {
			fail("a well-formed message is refused")
		}
		if !ref.KVEqual(m.T, m.To(dec), v) {
			fail("decoded message differs: " + kvm.Show(m.To(dec)) + " expected " + kvm.Show(v))
		}
	}
	if err == nil {
		// what is accepted can be sent on
		if _, err = kv.Marshal(deref(dec)); err != nil {
			fail("accepted message can't be encoded")
		}
	}
	if verdict == ref.KVAccept {
		c.Sample(fmt.Sprintf("%s %x", m.Name, b[:min(len(b), 100)]))
		c.Distinct(m.Name + string(b))
	}
	return verdict
}

// small values for templates
func templates(m *kvm.Msg) []kvm.L {
	var parts [][]kvm.V
	var radix []int
	for _, f := range m.T.Fields {
		a := small(f.T)
		parts = append(parts, a)
		radix = append(radix, len(a))
	}
	var out []kvm.L
	n := vlib.Size(radix)
	for i := 0; i < n; i++ {
		ix := vlib.Unrank(i, radix)
		v := make(kvm.L, len(parts))
		for k := range parts {
			v[k] = parts[k][ix[k]]
		}
		out = append(out, v)
	}
	return out
}

func small(t ref.KVType) []kvm.V {
	switch t.Kind {
	case ref.KU8, ref.KU32, ref.KU64:
		return []kvm.V{uint64(5)}
	case ref.KBool:
		return []kvm.V{uint64(1)}
	case ref.KFixed:
		return []kvm.V{kvm.Bytes(t.N, 1)}
	case ref.KBlob, ref.KString:
		return []kvm.V{kvm.Bytes(0, 1), kvm.Bytes(3, 1), kvm.Bytes(64, 1)}
	case ref.KList:
		return []kvm.V{kvm.Bytes(0, 1), kvm.Bytes(t.N, 1), kvm.Bytes(2*t.N, 1)}
	case ref.KArrBlob, ref.KArrBlobS:
		return []kvm.V{nil, kvm.L{kvm.Bytes(2, 1)}, kvm.L{kvm.Bytes(0, 1), kvm.Bytes(3, 1)}}
	case ref.KObj:
		var out []kvm.V
		var parts [][]kvm.V
		var radix []int
		for _, f := range t.Fields {
			a := small(f.T)
			parts = append(parts, a)
			radix = append(radix, len(a))
		}
		for i := 0; i < vlib.Size(radix); i++ {
			ix := vlib.Unrank(i, radix)
			v := make(kvm.L, len(parts))
			for k := range parts {
				v[k] = parts[k][ix[k]]
			}
			out = append(out, v)
		}
		return out
	case ref.KArrObj:
		it := small(ref.KVType{Kind: ref.KObj, Fields: t.Fields})
		return []kvm.V{kvm.L{}, kvm.L{it[4]}, kvm.L{it[1], it[5]}}
	}
	panic("kind")
}

// foreign are typed values put in place of a field's.
func foreign() [][]byte {
	var out [][]byte
	add := func(t byte, b ...byte) { out = append(out, append([]byte{t}, b...)) }
	raw := func(n int) []byte { return kvm.Bytes(n, 1) }
	for _, t := range []byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 11} {
		n := map[byte]int{1: 8, 2: 4, 3: 2, 4: 1, 5: 8, 6: 4, 7: 2, 8: 1, 9: 8, 11: 1}[t]
		add(t, kvm.Bytes(n, 3)...)
		if t != 11 {
			add(t, kvm.Bytes(n, 2)...)
		}
		add(t|0x80, append(ref.KVSize(1), kvm.Bytes(n, 3)...)...)
		add(t|0x80, ref.KVSize(0)...)
	}
	for _, n := range []int{0, 1, 2, 8, 15, 16, 17, 23, 24, 25, 31, 32, 33, 48, 63, 64, 65, 96} {
		add(10, append(ref.KVSize(uint64(n)), raw(n)...)...)
		add(10|0x80, append(append(ref.KVSize(1), ref.KVSize(uint64(n))...), raw(n)...)...)
	}
	add(10|0x80, ref.KVSize(0)...)
	add(10|0x80, append(ref.KVSize(2), 0, 0)...)
	add(12, 0)
	add(12, 4, 1, 'x', 8, 1)
	add(12|0x80, 0)
	add(12|0x80, 4, 0)
	add(12|0x80, 8, 0, 0)
	add(12|0x80, 4, 4, 1, 'x', 8, 1)
	add(13, 0)
	add(13, 4, 8, 1)
	add(13|0x80, 0)
	add(13|0x80, 4, 0x88, 4, 1)
	for _, t := range []byte{0, 14, 15, 16, 0x40, 0x7f, 0x80, 0x8e, 0xc0, 0xff} {
		add(t)
		add(t, 0)
		add(t, 4, 0)
		add(t, 4, 8, 1)
	}
	return out
}

type path []int

// fieldPaths lists the entries of a message at any depth.
func fieldPaths(fs []ref.KVField, at path) []path {
	var out []path
	for i, f := range fs {
		p := append(append(path{}, at...), i)
		out = append(out, p)
		if f.T.Kind == ref.KObj || f.T.Kind == ref.KArrObj {
			out = append(out, fieldPaths(f.T.Fields, p)...)
		}
	}
	return out
}

type change struct {
	at     path
	raw    []byte // type and value instead of the field's
	name   string // another name
	drop   bool
	double bool
	insert []byte // a whole entry put before
}

func same(a, b path) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// encode is the encoder with changes at given entries (of every item, in arrays).
func encode(t ref.KVType, v kvm.V, at path, chs []change) []byte {
	switch t.Kind {
	case ref.KObj:
		fs := v.(kvm.L)
		n := 0
		var body []byte
		for i, f := range t.Fields {
			p := append(append(path{}, at...), i)
			var ch *change
			for k := range chs {
				if same(chs[k].at, p) {
					ch = &chs[k]
				}
			}
			if ch == nil && f.Omit && fs[i] == nil {
				continue
			}
			if ch != nil && ch.drop {
				continue
			}
			name := f.Name
			times := 1
			if ch != nil && ch.name != "" {
				name = ch.name
			}
			if ch != nil && ch.double {
				times = 2
			}
			if ch != nil && ch.insert != nil {
				body = append(body, ch.insert...)
				n++
			}
			for ; times > 0; times-- {
				n++
				body = append(append(body, byte(len(name))), name...)
				if ch != nil && ch.raw != nil {
					body = append(body, ch.raw...)
				} else {
					body = append(body, ref.KVTypeByte(f.T))
					body = append(body, encode(f.T, fs[i], p, chs)...)
				}
			}
		}
		return append(ref.KVSize(uint64(n)), body...)
	case ref.KArrObj:
		a := v.(kvm.L)
		b := ref.KVSize(uint64(len(a)))
		for _, x := range a {
			b = append(b, encode(ref.KVType{Kind: ref.KObj, Fields: t.Fields}, x, at, chs)...)
		}
		return b
	}
	full := ref.KVEncode(ref.KVType{Kind: ref.KObj, Fields: []ref.KVField{{Name: "", T: t}}}, kvm.L{v})
	return full[len(ref.KVHeader)+3:]
}

func head(b []byte) []byte { return append(append([]byte{}, ref.KVHeader...), b...) }

func sizes(_ int) []uint64 {
	return []uint64{0, 1, 2, 62, 63, 64, 16383, 16384, 1 << 20, 1<<30 - 1, 1 << 30, 1<<31 - 1, 1 << 31, 1 << 32, 1 << 40, 1<<61 - 1, 1 << 61, 1<<62 - 1}
}

func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

func TestVerif(t *testing.T) {
	c = vlib.New("C08")
	msgs := kvm.Msgs

	// 1. all short bodies; longer ones over structural bytes
	alphabets := func(m *kvm.Msg) []byte {
		return []byte{0, 1, 4, 8, 12, 0x80, 0x88, 0x8c, 10, 0xff}
	}
	for mi := range msgs {
		m := &msgs[mi]
		c.Each("short bodies "+m.Name, 65536, func(w, i int) {
			b := head([]byte{byte(i >> 8), byte(i)})
			decode(w, m, b, "short")
			if i < 256 {
				decode(w, m, head([]byte{byte(i)}), "short")
			}
		})
		al := alphabets(m)
		depth := 4
		if c.Thorough {
			depth = 6
		}
		n := 1
		for k := 0; k < depth; k++ {
			n *= len(al)
		}
		c.Each("bodies over structural bytes "+m.Name, n, func(w, i int) {
			b := head(nil)
			for k := 0; k < depth; k++ {
				b = append(b, al[i%len(al)])
				i /= len(al)
			}
			decode(w, m, b, "structural")
		})
		decode(0, m, head(nil), "empty")
		// bodies made of tokens
		var tokens [][]byte
		for _, f := range m.T.Fields {
			tokens = append(tokens, append([]byte{byte(len(f.Name))}, f.Name...))
			for _, g := range f.T.Fields {
				tokens = append(tokens, append([]byte{byte(len(g.Name))}, g.Name...))
			}
		}
		for _, x := range []string{"\x04", "\x08", "\x0c", "\x0c\x04", "\x8c\x04", "\x8c\x08", "\x0a\x80", "\x0a\x04\x07", "\x8a\x04\x04\x07", "\x05", "\x06", "\x08\x01", "\x0b\x01", "\x0a\xfe\xff\xff\xff", "\x8a\xff\xff\xff\xff\xff\xff\xff\xff"} {
			tokens = append(tokens, []byte(x))
		}
		tokens = append(tokens, kvm.Bytes(32, 1))
		d := 4
		if c.Thorough {
			d = 5
		}
		n = 1
		for k := 0; k < d; k++ {
			n *= len(tokens)
		}
		for first := byte(4); first <= 12; first += 4 {
			first := first
			c.Each(fmt.Sprintf("token sequences %s %d", m.Name, first), n, func(w, i int) {
				b := head([]byte{first})
				for k := 0; k < d; k++ {
					b = append(b, tokens[i%len(tokens)]...)
					i /= len(tokens)
				}
				decode(w, m, b, "tokens")
			})
		}
	}

	// 2. valid messages: prefixes, headers, changed bytes
	type job struct {
		m *kvm.Msg
		v kvm.L
	}
	var jobs []job
	for mi := range msgs {
		for _, v := range templates(&msgs[mi]) {
			jobs = append(jobs, job{&msgs[mi], v})
		}
	}
	c.Cov("templates", len(jobs))
	c.Each("prefixes", len(jobs), func(w, i int) {
		j := jobs[i]
		b := ref.KVEncode(j.m.T, j.v)
		if decode(w, j.m, b, "whole") != ref.KVAccept {
			c.Fail(j.m.Name, "reference refuses its own encoding")
		}
		for n := 0; n < len(b); n++ {
			if decode(w, j.m, b[:n], "prefix") != ref.KVReject {
				c.Fail(j.m.Name, "reference accepts a prefix")
			}
		}
		// a payload for every other message
		for k := range msgs {
			decode(w, &msgs[k], b, "message "+j.m.Name+" as")
		}
	})
	c.Each("changed bytes", len(jobs), func(w, i int) {
		j := jobs[i]
		b := ref.KVEncode(j.m.T, j.v)
		if !c.Thorough && len(b) > 320 && i%3 != 0 {
			return
		}
		x := append([]byte{}, b...)
		for k := range x {
			for v := 0; v < 256; v++ {
				if byte(v) == b[k] {
					continue
				}
				x[k] = byte(v)
				decode(w, j.m, x, fmt.Sprintf("byte %d changed", k))
			}
			x[k] = b[k]
		}
		for k := 0; k <= len(b); k++ {
			for _, v := range []byte{0, 1, 4, 0x80, 0xff} {
				decode(w, j.m, append(append(append([]byte{}, b[:k]...), v), b[k:]...), fmt.Sprintf("byte put in at %d", k))
			}
			if k < len(b) {
				decode(w, j.m, append(append([]byte{}, b[:k]...), b[k+1:]...), fmt.Sprintf("byte %d cut out", k))
			}
		}
	})

	// 3. entries: other types, other sizes, renamed, missing, doubled, foreign ones
	fgn := foreign()
	ins := [][]byte{
		{0, 8, 1}, {1, 'x', 8, 1}, {1, 'x', 12, 0}, append([]byte{255}, append(kvm.Bytes(255, 1), 8, 1)...), {7, 'v', 'e', 'r', 's', 'i', 'o', 'n', 8, 1},
	}
	type ej struct {
		m  *kvm.Msg
		v  kvm.L
		ch []change
	}
	var ejs []ej
	for mi := range msgs {
		m := &msgs[mi]
		ts := templates(m)
		paths := fieldPaths(m.T.Fields, nil)
		for ti, v := range ts {
			if len(ts) > 30 && ti%4 != 0 && !c.Thorough {
				continue
			}
			var single []change
			for _, p := range paths {
				for _, f := range fgn {
					single = append(single, change{at: p, raw: f})
				}
				single = append(single, change{at: p, drop: true}, change{at: p, double: true})
				for _, nm := range []string{"x", "Block", "txs", "block", "version", "hop\x00", "top_id "} {
					single = append(single, change{at: p, name: nm})
				}
				for _, f := range ins {
					single = append(single, change{at: p, insert: f})
				}
			}
			for _, s := range single {
				ejs = append(ejs, ej{m, v, []change{s}})
			}
			if ti%7 == 1 || len(ts) == 1 || c.Thorough && ti%3 == 1 {
				for a, s := range single {
					for b := a + 1; b < len(single); b++ {
						if !same(s.at, single[b].at) && (a+b)%5 == 0 || s.drop && single[b].drop {
							ejs = append(ejs, ej{m, v, []change{s, single[b]}})
						}
					}
				}
			}
		}
	}
	c.Cov("entry changes", len(ejs))
	verdicts := [3]int64{}
	c.Each("entries", len(ejs), func(w, i int) {
		e := ejs[i]
		b := head(encode(e.m.T, e.v, nil, e.ch))
		d := fmt.Sprintf("entry %v", e.ch[0].at)
		v := decode(w, e.m, b, d)
		if w == 0 {
			verdicts[v]++
		}
	})
	c.Cov("verdicts seen by one worker (refuse, accept, open)", verdicts)

	// 4. announced sizes against memory, one at a time
	maxRatio := 0.0
	for _, j := range jobs {
		b, marks := ref.KVEncodeMarks(j.m.T, j.v)
		for _, at := range marks {
			old := 1 << (b[at] & 3)
			for _, n := range sizes(0) {
				for form := 0; form < 4; form++ {
					var s []byte
					switch form {
					case 0:
						s = ref.KVSize(n)
					case 1:
						s = binary.LittleEndian.AppendUint64(nil, n<<2|3)
					case 2:
						if n >= 1<<30 {
							continue
						}
						s = binary.LittleEndian.AppendUint32(nil, uint32(n<<2|2))
					case 3:
						// cut right after the size
						s = ref.KVSize(n)
					}
					x := append(append([]byte{}, b[:at]...), s...)
					if form != 3 {
						x = append(x, b[at+old:]...)
					}
					desc := fmt.Sprintf("announced size %d at %d", n, at)
					var used uint64
					c.Guard(0, j.m.Name+" "+desc, func() {
						dec := j.m.New()
						before := allocated()
						_ = kv.Unmarshal(x, dec)
						used = allocated() - before
					})
					limit := uint64(4<<20) + 2000*uint64(len(x))
					if used > limit {
						c.Fail(fmt.Sprintf("%s %s: %x", j.m.Name, desc, x), "%d bytes of memory used to decode %d bytes", used, len(x))
					}
					if r := float64(used) / float64(len(x)); r > maxRatio {
						maxRatio = r
					}
					decode(0, j.m, x, desc)
				}
			}
		}
		if c.Expired() {
			c.Cap("announced sizes: stopped by the time limit")
			break
		}
	}
	c.Cov("largest memory per received byte", maxRatio)

	// 5. long payloads that could be expanded
	for mi := range msgs {
		m := &msgs[mi]
		for _, pat := range [][]byte{{0}, {4}, {0x8c}, {12}, {0xff}, {1, 'b', 12, 4}, {6, 'b', 'l', 'o', 'c', 'k', 's', 0x8c, 4}} {
			b := head(nil)
			for len(b) < 100000 {
				b = append(b, pat...)
			}
			decode(0, m, b, "repeated")
			for _, f := range m.T.Fields {
				for _, tb := range []byte{0x80, 0x8a, 0x8c, 0x88, 0x85, 10} {
					x := head([]byte{4, byte(len(f.Name))})
					x = append(append(x, f.Name...), tb)
					x = append(x, ref.KVSize(50000)...)
					for len(x) < 50100 {
						x = append(x, pat...)
					}
					var used uint64
					desc := fmt.Sprintf("%s.%s type %x with 50000 of %x", m.Name, f.Name, tb, pat)
					c.Guard(0, desc, func() {
						dec := m.New()
						before := allocated()
						_ = kv.Unmarshal(x, dec)
						used = allocated() - before
					})
					if used > uint64(4<<20)+2000*uint64(len(x)) {
						c.Fail(desc, "%d bytes of memory used to decode %d bytes", used, len(x))
					}
					decode(0, m, x, desc)
				}
			}
		}
	}

	// 6. real messages of the network, when they are there
	for name, mn := range map[string]string{"2002": "NotificationNewTransactions", "2004": "NotificationResponseGetObjects", "2007": "NotificationResponseChainEntry", "2009": "NotificationNewLiteBlock"} {
		b, err := os.ReadFile(filepath.Join(os.Getenv("REPO"), "p2p", "fixtures", name+".dat"))
		if err != nil {
			continue
		}
		for mi := range msgs {
			m := &msgs[mi]
			if m.Name != mn {
				continue
			}
			if decode(0, m, b, "fixture "+name) == ref.KVReject {
				c.Fail(name, "reference refuses a message of the network")
			}
			step := 1
			if !c.Thorough && len(b) > 4000 {
				step = 29
			}
			c.Each("fixture "+name+" prefixes", len(b)/step, func(w, i int) {
				decode(w, m, b[:i*step], "prefix of fixture "+name)
			})
		}
	}
	c.Done()
}

func deref(p interface{}) interface{} { return reflect.ValueOf(p).Elem().Interface() }
