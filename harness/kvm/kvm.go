//go:build go1.21

// Package kvm describes the protocol messages for the checks of their encoding.
package kvm

import (
	"encoding/binary"
	"encoding/hex"
	"strconv"
	"strings"

	"github.com/google/uuid"
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/p2p"
	"github.com/r3volut1oner/go-karbo/zz_verif/ref"
)

type V = interface{}
type L = []interface{}

type Msg struct {
	Name string
	T    ref.KVType
	New  func() interface{}    // pointer to an empty message
	From func(v L) interface{} // message by value
	To   func(m interface{}) L // from a pointer
}

func f(name string, t ref.KVType) ref.KVField { return ref.KVField{Name: name, T: t} }
func fo(name string, t ref.KVType) ref.KVField {
	return ref.KVField{Name: name, T: t, Omit: true}
}
func obj(fs ...ref.KVField) ref.KVType    { return ref.KVType{Kind: ref.KObj, Fields: fs} }
func arrObj(fs ...ref.KVField) ref.KVType { return ref.KVType{Kind: ref.KArrObj, Fields: fs} }

var (
	u8     = ref.KVType{Kind: ref.KU8}
	u32    = ref.KVType{Kind: ref.KU32}
	u64    = ref.KVType{Kind: ref.KU64}
	boolT  = ref.KVType{Kind: ref.KBool}
	blob   = ref.KVType{Kind: ref.KBlob}
	str    = ref.KVType{Kind: ref.KString}
	hash   = ref.KVType{Kind: ref.KFixed, N: 32}
	netID  = ref.KVType{Kind: ref.KFixed, N: 16}
	hashes = ref.KVType{Kind: ref.KList, N: 32}
	peers  = ref.KVType{Kind: ref.KList, N: 24}

	nodeData = obj(f("network_id", netID), f("version", u8), f("peer_id", u64), f("local_time", u64), f("my_port", u32))
	syncData = obj(f("current_height", u32), f("top_id", hash))
	rawBlock = []ref.KVField{f("block", blob), fo("txs", ref.KVType{Kind: ref.KArrBlob})}
)

func un(v V) uint64 { x, _ := v.(uint64); return x }
func ub(v V) []byte { x, _ := v.([]byte); return x }
func ul(v V) L      { x, _ := v.(L); return x }

func toHash(b []byte) (h crypto.Hash) { copy(h[:], b); return }

func toNode(v V) (d p2p.BasicNodeData) {
	a := v.(L)
	var id uuid.UUID
	copy(id[:], ub(a[0]))
	return p2p.BasicNodeData{NetworkID: id, Version: uint8(un(a[1])), PeerID: un(a[2]), LocalTime: un(a[3]), MyPort: uint32(un(a[4]))}
}

func fromNode(d p2p.BasicNodeData) L {
	return L{append([]byte{}, d.NetworkID[:]...), uint64(d.Version), d.PeerID, d.LocalTime, uint64(d.MyPort)}
}

func toSync(v V) p2p.SyncData {
	a := v.(L)
	return p2p.SyncData{CurrentHeight: uint32(un(a[0])), TopBlockHash: toHash(ub(a[1]))}
}

func fromSync(d p2p.SyncData) L {
	return L{uint64(d.CurrentHeight), append([]byte{}, d.TopBlockHash[:]...)}
}

func toPeers(b []byte) []p2p.PeerEntry {
	if b == nil {
		return nil
	}
	out := []p2p.PeerEntry{}
	for ; len(b) >= 24; b = b[24:] {
		out = append(out, p2p.PeerEntry{
			Address:  p2p.NetworkAddress{IP: binary.LittleEndian.Uint32(b), Port: binary.LittleEndian.Uint32(b[4:])},
			ID:       binary.LittleEndian.Uint64(b[8:]),
			LastSeen: binary.LittleEndian.Uint64(b[16:]),
		})
	}
	return out
}

func fromPeers(ps []p2p.PeerEntry) V {
	if ps == nil {
		return nil
	}
	b := []byte{}
	for _, p := range ps {
		b = binary.LittleEndian.AppendUint32(b, p.Address.IP)
		b = binary.LittleEndian.AppendUint32(b, p.Address.Port)
		b = binary.LittleEndian.AppendUint64(b, p.ID)
		b = binary.LittleEndian.AppendUint64(b, p.LastSeen)
	}
	return b
}

func toHashes(b []byte) []crypto.Hash {
	if b == nil {
		return nil
	}
	out := []crypto.Hash{}
	for ; len(b) >= 32; b = b[32:] {
		out = append(out, toHash(b))
	}
	return out
}

func fromHashes(hs []crypto.Hash) V {
	if hs == nil {
		return nil
	}
	b := []byte{}
	for i := range hs {
		b = append(b, hs[i][:]...)
	}
	return b
}

func toRaw(v V) p2p.RawBlock {
	a := v.(L)
	r := p2p.RawBlock{Block: ub(a[0])}
	if a[1] != nil {
		r.Transactions = [][]byte{}
		for _, x := range ul(a[1]) {
			r.Transactions = append(r.Transactions, ub(x))
		}
	}
	return r
}

func fromRaw(r p2p.RawBlock) L {
	out := L{r.Block, nil}
	if r.Block == nil {
		out[0] = nil
	}
	if r.Transactions != nil {
		t := L{}
		for _, x := range r.Transactions {
			t = append(t, x)
		}
		out[1] = t
	}
	return out
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

var Msgs = []Msg{
	{
		Name: "HandshakeRequest", T: obj(f("node_data", nodeData), f("payload_data", syncData)),
		New:  func() interface{} { return &p2p.HandshakeRequest{} },
		From: func(v L) interface{} { return p2p.HandshakeRequest{NodeData: toNode(v[0]), PayloadData: toSync(v[1])} },
		To: func(m interface{}) L {
			x := m.(*p2p.HandshakeRequest)
			return L{fromNode(x.NodeData), fromSync(x.PayloadData)}
		},
	},
	{
		Name: "HandshakeResponse", T: obj(f("node_data", nodeData), f("payload_data", syncData), f("local_peerlist", peers)),
		New: func() interface{} { return &p2p.HandshakeResponse{} },
		From: func(v L) interface{} {
			return p2p.HandshakeResponse{NodeData: toNode(v[0]), PayloadData: toSync(v[1]), Peers: toPeers(ub(v[2]))}
		},
		To: func(m interface{}) L {
			x := m.(*p2p.HandshakeResponse)
			return L{fromNode(x.NodeData), fromSync(x.PayloadData), fromPeers(x.Peers)}
		},
	},
	{
		Name: "TimedSyncRequest", T: obj(f("payload_data", syncData)),
		New:  func() interface{} { return &p2p.TimedSyncRequest{} },
		From: func(v L) interface{} { return p2p.TimedSyncRequest{PayloadData: toSync(v[0])} },
		To:   func(m interface{}) L { return L{fromSync(m.(*p2p.TimedSyncRequest).PayloadData)} },
	},
	{
		Name: "TimedSyncResponse", T: obj(f("local_time", u64), f("payload_data", syncData), f("local_peerlist", peers)),
		New: func() interface{} { return &p2p.TimedSyncResponse{} },
		From: func(v L) interface{} {
			return p2p.TimedSyncResponse{LocalTime: un(v[0]), PayloadData: toSync(v[1]), Peers: toPeers(ub(v[2]))}
		},
		To: func(m interface{}) L {
			x := m.(*p2p.TimedSyncResponse)
			return L{x.LocalTime, fromSync(x.PayloadData), fromPeers(x.Peers)}
		},
	},
	{
		Name: "PingRequest", T: obj(),
		New:  func() interface{} { return &p2p.PingRequest{} },
		From: func(v L) interface{} { return p2p.PingRequest{} },
		To:   func(m interface{}) L { return L{} },
	},
	{
		Name: "PingResponse", T: obj(f("status", str), f("peer_id", u64)),
		New:  func() interface{} { return &p2p.PingResponse{} },
		From: func(v L) interface{} { return p2p.PingResponse{Status: string(ub(v[0])), PeerID: un(v[1])} },
		To: func(m interface{}) L {
			x := m.(*p2p.PingResponse)
			return L{[]byte(x.Status), x.PeerID}
		},
	},
	{
		Name: "NotificationNewBlock", T: obj(f("b", obj(rawBlock...)), f("current_blockchain_height", u32), f("hop", u32)),
		New: func() interface{} { return &p2p.NotificationNewBlock{} },
		From: func(v L) interface{} {
			return p2p.NotificationNewBlock{Block: toRaw(v[0]), CurrentBlockchainHeight: uint32(un(v[1])), Hop: uint32(un(v[2]))}
		},
		To: func(m interface{}) L {
			x := m.(*p2p.NotificationNewBlock)
			return L{fromRaw(x.Block), uint64(x.CurrentBlockchainHeight), uint64(x.Hop)}
		},
	},
	{
		Name: "NotificationNewTransactions", T: obj(f("stem", boolT), f("txs", hashes)),
		New: func() interface{} { return &p2p.NotificationNewTransactions{} },
		From: func(v L) interface{} {
			return p2p.NotificationNewTransactions{Stem: un(v[0]) != 0, Transactions: toHashes(ub(v[1]))}
		},
		To: func(m interface{}) L {
			x := m.(*p2p.NotificationNewTransactions)
			return L{b2u(x.Stem), fromHashes(x.Transactions)}
		},
	},
	{
		Name: "NotificationRequestGetObjects", T: obj(f("txs", hashes), f("blocks", hashes)),
		New: func() interface{} { return &p2p.NotificationRequestGetObjects{} },
		From: func(v L) interface{} {
			return p2p.NotificationRequestGetObjects{Transactions: toHashes(ub(v[0])), Blocks: toHashes(ub(v[1]))}
		},
		To: func(m interface{}) L {
			x := m.(*p2p.NotificationRequestGetObjects)
			return L{fromHashes(x.Transactions), fromHashes(x.Blocks)}
		},
	},
	{
		Name: "NotificationResponseGetObjects",
		T: obj(fo("txs", ref.KVType{Kind: ref.KArrBlobS}), f("blocks", arrObj(rawBlock...)),
			f("current_blockchain_height", u32), fo("missed_ids", hashes)),
		New: func() interface{} { return &p2p.NotificationResponseGetObjects{} },
		From: func(v L) interface{} {
			x := p2p.NotificationResponseGetObjects{CurrentBlockchainHeight: uint32(un(v[2])), MissedIds: toHashes(ub(v[3]))}
			if v[0] != nil {
				x.Transactions = []string{}
				for _, t := range ul(v[0]) {
					x.Transactions = append(x.Transactions, string(ub(t)))
				}
			}
			for _, b := range ul(v[1]) {
				x.Blocks = append(x.Blocks, toRaw(b))
			}
			return x
		},
		To: func(m interface{}) L {
			x := m.(*p2p.NotificationResponseGetObjects)
			out := L{nil, nil, uint64(x.CurrentBlockchainHeight), fromHashes(x.MissedIds)}
			if x.Transactions != nil {
				t := L{}
				for _, s := range x.Transactions {
					t = append(t, []byte(s))
				}
				out[0] = t
			}
			bs := L{}
			for _, b := range x.Blocks {
				bs = append(bs, fromRaw(b))
			}
			out[1] = bs
			return out
		},
	},
	{
		Name: "NotificationRequestChain", T: obj(f("block_ids", hashes)),
		New:  func() interface{} { return &p2p.NotificationRequestChain{} },
		From: func(v L) interface{} { return p2p.NotificationRequestChain{Blocks: toHashes(ub(v[0]))} },
		To:   func(m interface{}) L { return L{fromHashes(m.(*p2p.NotificationRequestChain).Blocks)} },
	},
	{
		Name: "NotificationResponseChainEntry", T: obj(f("start_height", u32), f("total_height", u32), f("m_block_ids", hashes)),
		New: func() interface{} { return &p2p.NotificationResponseChainEntry{} },
		From: func(v L) interface{} {
			return p2p.NotificationResponseChainEntry{StartHeight: uint32(un(v[0])), TotalHeight: uint32(un(v[1])), BlocksHashes: toHashes(ub(v[2]))}
		},
		To: func(m interface{}) L {
			x := m.(*p2p.NotificationResponseChainEntry)
			return L{uint64(x.StartHeight), uint64(x.TotalHeight), fromHashes(x.BlocksHashes)}
		},
	},
	{
		Name: "NotificationTxPool", T: obj(f("txs", hashes)),
		New:  func() interface{} { return &p2p.NotificationTxPool{} },
		From: func(v L) interface{} { return p2p.NotificationTxPool{Transactions: toHashes(ub(v[0]))} },
		To:   func(m interface{}) L { return L{fromHashes(m.(*p2p.NotificationTxPool).Transactions)} },
	},
	{
		Name: "NotificationNewLiteBlock", T: obj(f("current_blockchain_height", u32), f("hop", u32), f("block", blob)),
		New: func() interface{} { return &p2p.NotificationNewLiteBlock{} },
		From: func(v L) interface{} {
			return p2p.NotificationNewLiteBlock{CurrentBlockchainHeight: uint32(un(v[0])), Hop: uint32(un(v[1])), Block: ub(v[2])}
		},
		To: func(m interface{}) L {
			x := m.(*p2p.NotificationNewLiteBlock)
			return L{uint64(x.CurrentBlockchainHeight), uint64(x.Hop), x.Block}
		},
	},
}

// Bytes is a byte string of one of a few patterns.
func Bytes(n, pat int) []byte {
	b := make([]byte, n)
	for i := range b {
		switch pat {
		case 1:
			b[i] = byte(i*7 + 1)
		case 2:
			b[i] = 0xff
		case 3:
			if i == 0 {
				b[i] = 1
			}
		case 4:
			if i == n-1 {
				b[i] = 0x80
			}
		}
	}
	return b
}

// Alphabet lists values of a type. The depth bounds the lists.
func Alphabet(t ref.KVType, level int) []V {
	var out []V
	nums := func(xs ...uint64) {
		for _, x := range xs {
			out = append(out, x)
		}
	}
	switch t.Kind {
	case ref.KU8:
		nums(0, 1, 255)
		if level > 0 {
			nums(2, 4, 127, 128)
		}
	case ref.KU32:
		nums(0, 1, 256, 1<<32-1)
		if level > 0 {
			nums(255, 65535, 65536, 1<<24, 1<<31-1, 1<<31)
		}
	case ref.KU64:
		nums(0, 1, 1<<40, 1<<64-1)
		if level > 0 {
			nums(255, 256, 1<<32-1, 1<<32, 1<<63-1, 1<<63)
		}
	case ref.KBool:
		nums(0, 1)
	case ref.KFixed:
		for p := 0; p < 2+3*level; p++ {
			out = append(out, Bytes(t.N, p))
		}
	case ref.KBlob, ref.KString:
		for _, n := range []int{0, 1, 2, 63, 64} {
			out = append(out, Bytes(n, 1))
		}
		if level > 0 {
			for _, n := range []int{3, 32, 62, 65, 255, 256} {
				out = append(out, Bytes(n, 1))
			}
			out = append(out, Bytes(8, 0), Bytes(8, 2), Bytes(1, 0), Bytes(1, 2))
		}
		if level > 1 {
			for _, n := range []int{16382, 16383, 16384, 16385, 65535, 65536} {
				out = append(out, Bytes(n, 1))
			}
		}
	case ref.KList:
		edge := []int{0, 1, 2, 63/t.N + 1}
		if level > 0 {
			edge = append(edge, 3, 4, 10)
		}
		if level > 1 {
			edge = append(edge, 16383/t.N, 16383/t.N+1, 128, 255, 256)
		}
		for _, n := range edge {
			out = append(out, Bytes(n*t.N, 1))
		}
		if level > 0 {
			out = append(out, Bytes(2*t.N, 0), Bytes(2*t.N, 2), Bytes(2*t.N, 4))
		}
		out = append(out, V(nil))
	case ref.KArrBlob, ref.KArrBlobS:
		out = append(out, nil, L{}, L{Bytes(0, 0)}, L{Bytes(1, 1)}, L{Bytes(63, 1), Bytes(64, 1)}, L{Bytes(0, 0), Bytes(0, 0), Bytes(5, 2)})
		if level > 0 {
			ns := []int{3, 63, 64, 65}
			if level > 1 {
				ns = append(ns, 16383, 16384)
			}
			for _, n := range ns {
				l := L{}
				for i := 0; i < n; i++ {
					l = append(l, Bytes(i%3, 1))
				}
				out = append(out, l)
			}
		}
		if level > 1 {
			out = append(out, L{Bytes(16383, 1)}, L{Bytes(16384, 1), Bytes(0, 0)})
		}
	case ref.KObj:
		var parts [][]V
		var radix []int
		for _, f := range t.Fields {
			l := level
			if len(t.Fields) > 3 && l > 0 {
				l--
			}
			a := Alphabet(f.T, l)
			parts = append(parts, a)
			radix = append(radix, len(a))
		}
		n := 1
		for _, r := range radix {
			n *= r
		}
		for i := 0; i < n; i++ {
			o := make(L, len(parts))
			k := i
			for j := range parts {
				o[j] = parts[j][k%radix[j]]
				k /= radix[j]
			}
			out = append(out, o)
		}
	case ref.KArrObj:
		items := Alphabet(ref.KVType{Kind: ref.KObj, Fields: t.Fields}, 0)
		out = append(out, L{})
		for _, a := range items {
			out = append(out, L{a})
			for j, b := range items {
				if level == 0 && j > 5 {
					break
				}
				out = append(out, L{a, b})
				if level > 1 {
					for _, c := range items[:4] {
						out = append(out, L{a, b, c})
					}
				}
			}
		}
		ns := []int{}
		if level > 1 {
			ns = []int{63, 64, 128, 16383, 16384}
		}
		for _, n := range ns {
			l := L{}
			for i := 0; i < n; i++ {
				l = append(l, items[(i*5)%7])
			}
			out = append(out, l)
		}
	}
	return out
}

// Show describes a value shortly.
func Show(v V) string {
	var b strings.Builder
	show(&b, v)
	return b.String()
}

func show(b *strings.Builder, v V) {
	if b.Len() > 1500 {
		return
	}
	switch x := v.(type) {
	case nil:
		b.WriteByte('-')
	case uint64:
		b.WriteString(strconv.FormatUint(x, 10))
	case []byte:
		if len(x) > 24 {
			b.WriteString(strconv.Itoa(len(x)) + " bytes " + hex.EncodeToString(x[:4]) + "..")
		} else {
			b.WriteString("x" + hex.EncodeToString(x))
		}
	case L:
		b.WriteByte('[')
		for i, y := range x {
			if i > 0 {
				b.WriteByte(' ')
			}
			if i > 12 {
				b.WriteString("... " + strconv.Itoa(len(x)) + " items")
				break
			}
			show(b, y)
		}
		b.WriteByte(']')
	}
}
