//go:build go1.21

package calls

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"os"
	"reflect"
	"strings"
	"time"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	kv "github.com/r3volut1oner/go-karbo/encoding/binary"
	"github.com/r3volut1oner/go-karbo/p2p"
	"github.com/r3volut1oner/go-karbo/utils"
	"github.com/r3volut1oner/go-karbo/zz_verif/kvm"
	"github.com/r3volut1oner/go-karbo/zz_verif/ref"
	"github.com/r3volut1oner/go-karbo/zz_verif/txm"
	log "github.com/sirupsen/logrus"
)

func init() {
	groups["C07"] = group{messageOps, 2, 3}
	groups["C08"] = group{hostileMessageOps, 2, 3}
	groups["C09"] = group{frameOps, 2, 3}
	groups["C10"] = group{blockOps, 2, 3}
	groups["C11"] = group{hostileBlockOps, 2, 3}
	groups["C12"] = group{extraOps, 3, 4}
	groups["C13"] = group{scheduleOps, 3, 4}
	groups["C14"] = group{rewardOps, 3, 4}
	groups["C15"] = group{difficultyOps, 2, 3}
	groups["C16"] = group{amountOps, 3, 4}
	groups["C29"] = group{numberOps, 3, 4}
	groups["C30"] = group{unlockOps, 2, 3}
	groups["C34"] = group{structOps, 2, 3}
}

func deref(m interface{}) interface{} { return reflect.ValueOf(m).Elem().Interface() }

// some values of a message: not equal to each other
func someValues(m *kvm.Msg, n int) (out []kvm.L) {
	all := kvm.Alphabet(m.T, 0)
	for i := 0; i < n; i++ {
		v, ok := all[i*(len(all)-1)/n+len(all)/(n+1)%len(all)].(kvm.L)
		if ok {
			out = append(out, v)
		}
		if len(all) == 1 {
			break
		}
	}
	return
}

func marshalOp(what string, v interface{}) op {
	return op{"Marshal of " + what, func() res { return bytesOf(kv.Marshal(v)) }}
}

func unmarshalOp(what string, m *kvm.Msg, b []byte) op {
	return op{fmt.Sprintf("Unmarshal of %s as %s", what, m.Name), func() res {
		x, in := m.New(), append([]byte{}, b...)
		err := kv.Unmarshal(in, x)
		return res{show: func() string {
			if err != nil {
				return fmt.Sprintf("refused: %x", in)
			}
			return fmt.Sprintf("%s of %x", kvm.Show(m.To(x)), in)
		}}
	}}
}

func messageOps() (ops []op) {
	for i := range kvm.Msgs {
		m := &kvm.Msgs[i]
		for k, v := range someValues(m, 3) {
			what := fmt.Sprintf("%s %d", m.Name, k)
			ops = append(ops, marshalOp(what, m.From(v)), unmarshalOp(what, m, ref.KVEncode(m.T, v)))
		}
	}
	return
}

func hostileMessageOps() (ops []op) {
	for i := range kvm.Msgs {
		m := &kvm.Msgs[i]
		vs := someValues(m, 2)
		b := ref.KVEncode(m.T, vs[0])
		other := &kvm.Msgs[(i+3)%len(kvm.Msgs)]
		ops = append(ops,
			unmarshalOp(m.Name, m, b),
			unmarshalOp(m.Name+" cut", m, b[:len(b)-1]),
			unmarshalOp(m.Name+" cut in the middle", m, b[:(9+len(b))/2]),
			unmarshalOp(m.Name, other, b))
		if len(b) > 12 {
			bad := append([]byte{}, b...)
			bad[9] |= 0x3c
			ops = append(ops, unmarshalOp(m.Name+" with a wrong count", m, bad))
			bad = append([]byte{}, b...)
			for k := 12; k < len(bad); k++ {
				if bad[k] == ref.KVBinary || bad[k] == ref.KVObject {
					bad[k] = 0x40
					break
				}
			}
			ops = append(ops, unmarshalOp(m.Name+" with a wrong type", m, bad))
		}
	}
	head := &kvm.Msgs[0]
	ops = append(ops, unmarshalOp("nothing", head, nil), unmarshalOp("the header", head, ref.KVEncode(head.T, someValues(head, 1)[0])[:9]))
	return
}

// conn gives fixed bytes in pieces and keeps what is written.
type conn struct {
	net.Conn
	in    []byte
	piece int
	out   [][]byte
	whole []byte
}

func (c *conn) Read(b []byte) (int, error) {
	if len(c.in) == 0 {
		return 0, io.EOF
	}
	n := min3(len(b), len(c.in), c.piece)
	copy(b, c.in[:n])
	c.in = c.in[n:]
	return n, nil
}

// Write keeps the bytes and the slice, which belongs to the caller only until Write returns; its bytes are kept.
func (c *conn) Write(b []byte) (int, error) {
	c.whole = append(c.whole, b...)
	return len(b), nil
}
func (c *conn) Close() error                     { return nil }
func (c *conn) SetDeadline(time.Time) error      { return nil }
func (c *conn) SetReadDeadline(time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(time.Time) error { return nil }

func min3(a, b, c int) int {
	if b < a {
		a = b
	}
	if c < a {
		a = c
	}
	return a
}

func frame(cmd uint32, flags uint32, back byte, payload []byte) []byte {
	b := binary.LittleEndian.AppendUint64(nil, 0x0101010101012101)
	b = binary.LittleEndian.AppendUint64(b, uint64(len(payload)))
	b = append(b, back)
	b = binary.LittleEndian.AppendUint32(b, cmd)
	b = binary.LittleEndian.AppendUint32(b, 0)
	b = binary.LittleEndian.AppendUint32(b, flags)
	b = binary.LittleEndian.AppendUint32(b, 1)
	return append(b, payload...)
}

func frameOps() (ops []op) {
	for _, i := range []int{0, 2, 4, 6, 10} {
		m := &kvm.Msgs[i]
		for k, v := range someValues(m, 2) {
			x := m.From(v)
			id := uint32(1000 + i)
			ops = append(ops, op{fmt.Sprintf("sending %s %d", m.Name, k), func() res {
				c := &conn{}
				err := (&p2p.LevinProtocol{Conn: c}).Notify(id, x)
				return res{show: func() string { return fmt.Sprintf("%x %v", c.whole, err) }}
			}}, op{fmt.Sprintf("replying with %s %d", m.Name, k), func() res {
				c := &conn{}
				err := (&p2p.LevinProtocol{Conn: c}).Reply(id, x, 1)
				return res{show: func() string { return fmt.Sprintf("%x %v", c.whole, err) }}
			}})
		}
	}
	rq, rs := &kvm.Msgs[0], &kvm.Msgs[1]
	req := rq.From(someValues(rq, 1)[0])
	invoke := func(what string, in []byte, piece int) {
		ops = append(ops, op{"invoking, the answer is " + what, func() res {
			c := &conn{in: append([]byte{}, in...), piece: piece}
			x := rs.New()
			err := (&p2p.LevinProtocol{Conn: c}).Invoke(1001, req, x)
			return res{show: func() string {
				if err != nil {
					return fmt.Sprintf("refused, %d left, %x", len(c.in), c.whole)
				}
				return fmt.Sprintf("%s, %d left, %x", kvm.Show(rs.To(x)), len(c.in), c.whole)
			}}
		}})
	}
	for k, v := range someValues(rs, 3) {
		p := ref.KVEncode(rs.T, v)
		invoke(fmt.Sprintf("message %d", k), append(frame(1001, 2, 0, p), 1, 2, 3), 1<<20)
		invoke(fmt.Sprintf("message %d in pieces", k), frame(1001, 2, 0, p), 7)
	}
	p := ref.KVEncode(rs.T, someValues(rs, 1)[0])
	invoke("cut", frame(1001, 2, 0, p)[:40], 1<<20)
	invoke("cut in its head", frame(1001, 2, 0, p)[:20], 3)
	invoke("nothing", nil, 1)
	invoke("of another command", frame(1002, 2, 0, p), 1<<20)
	invoke("a request", frame(1001, 1, 1, p), 1<<20)
	invoke("garbage", bytes.Repeat([]byte{0x55}, 80), 1<<20)
	invoke("empty", frame(1001, 2, 0, nil), 1<<20)
	invoke("of no message", frame(1001, 2, 0, p[:20]), 1<<20)
	return
}

func txOp(what string, b []byte) op {
	return op{"reading " + what, func() res {
		in := append([]byte{}, b...)
		var x cryptonote.Transaction
		r := bytes.NewReader(in)
		err := x.Deserialize(r)
		if err != nil {
			return text("refused %x", in)
		}
		left := r.Len()
		return res{show: func() string {
			y, ok := txm.FromTx(&x)
			return fmt.Sprintf("%x %v %x %d %x %x", y.Bytes(), ok, x.Serialize(), left, *x.Hash(), in)
		}}
	}}
}

func blockOp(what string, b []byte) op {
	return op{"reading " + what, func() res {
		in := append([]byte{}, b...)
		var x cryptonote.Block
		r := bytes.NewReader(in)
		err := x.Deserialize(r)
		if err != nil {
			return text("refused %x", in)
		}
		left := r.Len()
		return res{show: func() string {
			y, ok := txm.FromBlock(&x)
			return fmt.Sprintf("%x %v %x %d %x %x %x", y.Bytes(), ok, x.Serialize(), left, *x.Hash(), x.HashingBytes(), in)
		}}
	}}
}

func someTxs() []ref.Tx {
	t := txm.Bases()
	for i := 0; i < 2; i++ {
		t = append(t, txm.WithSigs(ref.Tx{Version: 1, Ins: []ref.TxIn{txm.Key(uint64(10+i), i, 1, 2, uint32(3+i)), txm.Key(5, 1+i, 9)}, Outs: t[0].Outs, Extra: []byte{1, byte(i)}}, i))
	}
	return t
}

func someBlocks() (out []ref.Block) {
	bases := txm.Bases()
	parents := txm.Parents(0)
	for v := byte(1); v <= 5; v++ {
		for k := 0; k < 2; k++ {
			b := ref.Block{Major: v, Minor: byte(k), TS: uint64(1000 + k), Nonce: uint32(7 + k), Prev: txm.Fill(int(v)), Base: bases[k%len(bases)], Hashes: txm.Hashes(3 * k)}
			if v == 2 || v == 3 {
				b.Parent = parents[(int(v)*3+k)%len(parents)]
				b.TS, b.Nonce = b.Parent.TS, b.Parent.Nonce
			}
			if v >= 5 {
				b.Sig = txm.Sig(k)
			}
			out = append(out, b)
		}
	}
	return
}

func blockOps() (ops []op) {
	for i, t := range someTxs() {
		t := t
		ops = append(ops, txOp(fmt.Sprintf("transaction %d", i), t.Bytes()))
		ops = append(ops, op{fmt.Sprintf("writing transaction %d", i), func() res {
			x := txm.Tx(&t)
			b, h, p := x.Serialize(), x.Hash(), x.TransactionPrefix.Hash()
			return res{
				show: func() string { return fmt.Sprintf("%x %x %x %x %d", b, *h, *p, x.Serialize(), x.Size()) },
				spoil: func() {
					b = b[:cap(b)]
					for i := range b {
						b[i] ^= 0x77
					}
					h[0] ^= 1
					p[0] ^= 1
				},
			}
		}})
	}
	for i, t := range someBlocks() {
		t := t
		ops = append(ops, blockOp(fmt.Sprintf("block %d of version %d", i, t.Major), t.Bytes()))
		ops = append(ops, op{fmt.Sprintf("writing block %d of version %d", i, t.Major), func() res {
			x := txm.Block(&t)
			b, h, p := x.Serialize(), x.Hash(), x.HashingBytes()
			return res{
				show: func() string { return fmt.Sprintf("%x %x %x %x", b, *h, p, x.Serialize()) },
				spoil: func() {
					b, p = b[:cap(b)], p[:cap(p)]
					for i := range b {
						b[i] ^= 0x77
					}
					for i := range p {
						p[i] ^= 0x77
					}
					h[0] ^= 1
				},
			}
		}})
	}
	return
}

func hostileBlockOps() (ops []op) {
	cuts := func(what string, b []byte, f func(string, []byte) op, head int) {
		ops = append(ops, f(what, b), f(what+" cut", b[:len(b)-1]), f(what+" cut in the middle", b[:len(b)/2]))
		bad := append([]byte{}, b...)
		bad[head] = 0x7f
		ops = append(ops, f(what+" with another byte", bad))
	}
	for i, t := range someTxs() {
		if i%2 == 0 {
			cuts(fmt.Sprintf("transaction %d", i), t.Bytes(), txOp, 2)
		}
	}
	for i, b := range someBlocks() {
		if i%2 == 1 {
			cuts(fmt.Sprintf("block of version %d", b.Major), b.Bytes(), blockOp, 34)
		}
	}
	ops = append(ops, txOp("a transaction without end", bytes.Repeat([]byte{0xff}, 40)), blockOp("a block without end", bytes.Repeat([]byte{0xff}, 80)), blockOp("nothing", nil))
	return
}

func extraOps() (ops []op) {
	key := func(c byte) []byte { return append([]byte{1}, bytes.Repeat([]byte{c}, 32)...) }
	merge := append([]byte{3, 33, 2}, bytes.Repeat([]byte{0xcc}, 32)...)
	merge2 := append([]byte{3, 33, 0}, bytes.Repeat([]byte{0xdd}, 32)...)
	nonce := []byte{2, 3, 9, 8, 7}
	nonce2 := append([]byte{2, 33, 0}, bytes.Repeat([]byte{0x44}, 32)...)
	cat := func(l ...[]byte) (o []byte) {
		for _, b := range l {
			o = append(o, b...)
		}
		return
	}
	for _, b := range [][]byte{{}, key(1), key(2), nonce, nonce2, merge, merge2, cat(key(3), nonce), cat(nonce2, merge), cat(key(4), merge2, []byte{0, 0}), {0, 0, 0}, {0, 1}, {4}, key(5)[:20], nonce2[:9], merge[:30], {2, 200}, {3, 34}} {
		b := b
		ops = append(ops, op{fmt.Sprintf("parsing %x", b), func() res {
			in := append(make([]byte, 0, 80), b...)
			f, err := cryptonote.TxExtraFromBytes(in)
			return res{
				show: func() string {
					if err != nil {
						return fmt.Sprintf("refused %x", in)
					}
					s := fmt.Sprintf("%x %x %x", f.PublicKey, f.Nonce, in)
					if f.MiningTag != nil {
						s += fmt.Sprintf(" %d %x", f.MiningTag.Depth, f.MiningTag.MerkleRoot)
					}
					return s
				},
				spoil: func() {
					if err == nil {
						f.PublicKey[1] ^= 1
						for i := range f.Nonce {
							f.Nonce[i] ^= 1
						}
						if f.MiningTag != nil {
							f.MiningTag.Depth++
							f.MiningTag.MerkleRoot[2] ^= 1
						}
					}
				},
			}
		}})
	}
	return
}

// The networks all calls share, as the parts of a node do.
var nets = []*config.Network{config.MainNet(), config.TestNet()}

func scheduleOps() (ops []op) {
	add := func(name string, f func() string) { ops = append(ops, op{name, func() res { return fixed(f()) }}) }
	for i, n := range nets {
		n := n
		for _, h := range []uint32{0, 60000, 60001, 216001, 266001, 700000, 700001, math.MaxUint32} {
			h := h
			add(fmt.Sprintf("limits at %d on network %d", h, i), func() string {
				return fmt.Sprint(n.GetBlockMajorVersion(h), n.MaxBlockSize(uint64(h)), n.MaxTransactionSize(h), n.MinimalFee(h), n.MinimalFeeValidator(h), n.FusionMaxTxSize(h), n.GetFeePerByte(uint64(h%1000), n.MinimalFee(h)))
			})
		}
	}
	for v := byte(1); v <= 5; v++ {
		v, n := v, nets[v%2]
		add(fmt.Sprintf("windows of version %d", v), func() string {
			return fmt.Sprint(n.BlockFutureTimeLimit(v), n.BlockTimestampCheckWindow(v), n.DifficultyBlocksCountByBlockVersion(v), n.BlockGrantedFullRewardZoneByBlockVersion(v))
		})
	}
	for _, net := range []func() *config.Network{config.MainNet, config.TestNet} {
		net := net
		ops = append(ops, op{fmt.Sprintf("a new network with genesis nonce %d", net().GenesisNonce), func() res {
			n := net()
			return res{
				show: func() string {
					return fmt.Sprint(n.Name, n.GenesisNonce, n.NetworkID, n.GetBlockMajorVersion(700001), n.MaxBlockSize(5), n.SeedNodes)
				},
				spoil: func() {
					n.Name = "x"
					n.GenesisNonce = 3
					n.NetworkID[1] ^= 1
					for i := range n.SeedNodes {
						n.SeedNodes[i] = "y"
					}
				},
			}
		}})
	}
	return
}

func rewardOps() (ops []op) {
	for i, n := range nets {
		n := n
		for _, a := range [][5]uint64{
			{1, 100000, 100, 0, 0}, {1, 100000, 150000, 0, 7}, {2, 100000, 100, 1 << 60, 7}, {4, 1000000, 1500000, 1 << 60, 7}, {5, 1000000, 1999999, 1 << 60, 7},
			{5, 1000000, 2000001, 1 << 60, 7}, {4, 0, 100, 9999999000000000000, 100}, {4, 1 << 31, 1<<31 + 5, 1 << 40, 1 << 40},
			{4, 1000000, 1500000, 1 << 60, 8}, {4, 1000000, 1500000, 1 << 61, 7}, {4, 1000000, 1500001, 1 << 60, 7}, {4, 1000001, 1500000, 1 << 60, 7},
		} {
			a := a
			ops = append(ops, op{fmt.Sprintf("reward for %v on network %d", a, i), func() res {
				r, e, err := n.GetBlockReward(byte(a[0]), a[1], a[2], a[3], a[4])
				if err != nil {
					return fixed("refused")
				}
				return text("%d %d", r, e)
			}})
		}
	}
	return
}

func difficultyOps() (ops []op) {
	for i, n := range nets {
		n := n
		for _, e := range []struct {
			h uint32
			v byte
			n int
		}{{1000, 1, 375}, {1000, 1, 9}, {70000, 2, 17}, {220000, 3, 61}, {270000, 4, 61}, {299999, 4, 61}, {300000, 4, 61}, {700000, 5, 121}, {700001, 5, 121}, {900000, 5, 121}, {10, 1, 0}} {
			for k := 0; k < 6; k++ {
				e := e
				var ts, cum []uint64
				t, d := uint64(1000000), uint64(5000000)
				for j := 0; j < e.n; j++ {
					ts, cum = append(ts, t), append(cum, d)
					t += uint64(240 + k%3*(j%7)*40)
					d += uint64(100000 * (1 + k%3%2))
					if k == 2 && j%3 == 1 {
						t -= 500
					}
				}
				// 3 and 4: the first and second window but for their inside; 5: the third but for its last difficulty.
				for j := 1; j < e.n-1; j++ {
					switch k {
					case 3:
						ts[j] += uint64(100 + 37*(j%5))
					case 4:
						cum[j] += uint64(10000 * (1 + j%8))
					}
				}
				if k == 5 && e.n > 0 {
					cum[e.n-1] += 3000000
				}
				ops = append(ops, op{fmt.Sprintf("difficulty at %d, version %d, window %d of %d, network %d", e.h, e.v, k, e.n, i), func() res {
					a, b := append([]uint64{}, ts...), append([]uint64{}, cum...)
					d, err := n.NextDifficulty(e.h, e.v, a, b)
					if err != nil {
						return fixed("refused")
					}
					return text("%d", d)
				}})
				if e.n == 0 {
					break
				}
			}
		}
	}
	return
}

func amountOps() (ops []op) {
	for _, a := range []uint64{0, 1, 10, 123, 90909, 62387455827, 999999999999, math.MaxUint64} {
		a := a
		for _, d := range []uint64{0, 100, 100000000} {
			d := d
			ops = append(ops, op{fmt.Sprintf("decomposing %d, dust %d", a, d), func() res {
				x, y := cryptonote.DecomposeAmountIntoDigits(a, d)
				return res{
					show: func() string { return fmt.Sprint(x, y) },
					spoil: func() {
						x, y = x[:cap(x)], y[:cap(y)]
						for i := range x {
							x[i] = 5
						}
						for i := range y {
							y[i] = 6
						}
					},
				}
			}})
		}
		ops = append(ops, op{fmt.Sprintf("validity of %d", a), func() res {
			return text("%v %v", nets[0].IsValidDecomposedAmount(a), nets[1].IsValidDecomposedAmount(a))
		}})
	}
	return
}

func numberOps() (ops []op) {
	for _, s := range [][]uint64{{}, {7}, {3, 1}, {3, 1, 2}, {9, 9, 1, 5}, {5, 4, 3, 2, 1}, {1 << 63, 1 << 63}, {8, 1, 8, 1, 8, 1, 8}} {
		s := s
		ops = append(ops, op{fmt.Sprintf("median of %v", s), func() res { return text("%d", utils.MedianSlice(append([]uint64{}, s...))) }})
		ops = append(ops, op{fmt.Sprintf("reverse of %v", s), func() res {
			r := utils.SliceReverse(append([]uint64{}, s...))
			return res{show: func() string { return fmt.Sprint(r) }, spoil: func() {
				r = r[:cap(r)]
				for i := range r {
					r[i] = 4
				}
			}}
		}})
	}
	for _, s := range [][]uint32{{}, {1}, {1, 2, 3}, {3, 2, 1}, {1, 1}, {5, 1, 5}} {
		s := s
		ops = append(ops, op{fmt.Sprintf("order of %v", s), func() res {
			a := append([]uint32{}, s...)
			b := append([]uint32{}, s...)
			return res{show: func() string { return fmt.Sprint(utils.SliceIsUniqueUint32(&a), utils.SliceIsSortedUint32(&b), b) }}
		}})
	}
	for _, p := range [][2]uint64{{0, 0}, {1 << 32, 1 << 32}, {math.MaxUint64, math.MaxUint64}, {3, math.MaxUint64}} {
		p := p
		ops = append(ops, op{fmt.Sprintf("arithmetic of %v", p), func() res {
			lo, hi := utils.Mul128(p[0], p[1])
			qh, ql := utils.Div128p32(p[0], p[1], 1000003)
			return text("%d %d %d %d %d %d", lo, hi, qh, ql, utils.MinUint64(p[0], p[1]), utils.ClampInt64(-5, int64(p[1]), 5))
		}})
	}
	return
}

func unlockOps() (ops []op) {
	logger := log.New()
	logger.Out = io.Discard
	for i, n := range nets {
		bc := cryptonote.NewBlockChain(n, cryptonote.NewMemoryStorage(), logger)
		for _, u := range []uint64{0, 10, 11, 12, 499999999, 500000000, 500000001, 1 << 40, math.MaxUint64} {
			for _, h := range []uint32{0, 10, 499999998, math.MaxUint32} {
				u, h := u, h
				ops = append(ops, op{fmt.Sprintf("unlock time %d at height %d, network %d", u, h, i), func() res {
					return text("%v", bc.IsTransactionSpendTimeUnlocked(u, h))
				}})
			}
		}
		if i == 0 {
			continue
		}
	}
	return
}

// Structures of the same shape whose entries are called or kept differently.
func structOps() (ops []op) {
	type inner struct {
		X uint32 `binary:"x"`
		Y []byte `binary:"y"`
	}
	type a struct {
		A uint64   `binary:"a"`
		B []uint32 `binary:"b"`
		C inner    `binary:"c"`
	}
	type b struct {
		A uint64   `binary:"b"`
		B []uint32 `binary:"a"`
		C inner    `binary:"d"`
	}
	type c struct {
		A uint64   `binary:"a"`
		B []uint32 `binary:"b,binary"`
		C inner    `binary:"c"`
	}
	type d struct {
		A uint64   `binary:"a,omitempty"`
		B []uint32 `binary:"b,omitempty"`
		C []inner  `binary:"c"`
	}
	fresh := []func() interface{}{
		func() interface{} { return &a{} }, func() interface{} { return &b{} },
		func() interface{} { return &c{} }, func() interface{} { return &d{} },
	}
	{
		// of the same name as another
		type a struct {
			A uint32   `binary:"a"`
			B []uint16 `binary:"c"`
		}
		fresh = append(fresh, func() interface{} { return &a{} })
		for i, v := range []interface{}{a{}, a{5, []uint16{1, 2, 3}}} {
			ops = append(ops, marshalOp(fmt.Sprintf("the other a %d", i), v))
		}
	}
	{
		// and another, with entries the other way round and in place of the inner structure
		type inner struct {
			Y []byte `binary:"x"`
			X uint32 `binary:"y"`
		}
		type a struct {
			C uint64 `binary:"c"`
			B uint64 `binary:"b"`
			A inner  `binary:"a"`
		}
		fresh = append(fresh, func() interface{} { return &a{} })
		for i, v := range []interface{}{a{}, a{5, 6, inner{[]byte("other"), 8}}} {
			ops = append(ops, marshalOp(fmt.Sprintf("the third a %d", i), v))
		}
	}
	in := inner{7, []byte("seven")}
	values := []interface{}{
		a{}, a{1, []uint32{1, 2}, in}, b{}, b{1, []uint32{1, 2}, in}, c{}, c{1, []uint32{1, 2}, in}, d{}, d{1, []uint32{1, 2}, []inner{in, {}}}, d{0, nil, []inner{in}},
		a{1 << 63, bigList(300), inner{1, bytes.Repeat([]byte{3}, 70)}},
	}
	for i, v := range values {
		ops = append(ops, marshalOp(fmt.Sprintf("%T %d", v, i), v))
	}
	ops = append(ops, marshalOp("what is no part of the format", struct{ C chan int }{}))
	// The bytes to read come from processes making that one call, so that no call precedes the first one here.
	if os.Getenv("VERIF_CALLS_BYTES") == "" {
		os.Setenv("VERIF_CALLS_BYTES", "none")
		all := make([]string, len(ops))
		for i := range ops {
			all[i] = alone(i)
		}
		os.Setenv("VERIF_CALLS_BYTES", strings.Join(all, ","))
	}
	var blobs [][]byte
	for _, l := range strings.Split(os.Getenv("VERIF_CALLS_BYTES"), ",") {
		if x, err := hex.DecodeString(l); err == nil && len(x) > 0 {
			blobs = append(blobs, x)
		}
	}
	for i, x := range blobs {
		for k, f := range fresh {
			x, f := x, f
			ops = append(ops, op{fmt.Sprintf("Unmarshal of value %d into structure %d", i, k), func() res {
				y := f()
				err := errors.New("panic")
				func() {
					defer func() { _ = recover() }()
					err = kv.Unmarshal(append([]byte{}, x...), y)
				}()
				return res{show: func() string {
					if err != nil {
						return "refused"
					}
					return fmt.Sprintf("%+v", deref(y))
				}}
			}})
		}
	}
	return
}

func bigList(n int) (out []uint32) {
	for i := 0; i < n; i++ {
		out = append(out, uint32(i*i))
	}
	return
}
