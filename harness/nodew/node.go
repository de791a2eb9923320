//go:build go1.21

// Package nodew runs a real node on the in-memory network, in virtual time.
package nodew

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/p2p"
	"github.com/r3volut1oner/go-karbo/zz_verif/chainm"
	"github.com/r3volut1oner/go-karbo/zz_verif/kvm"
	"github.com/r3volut1oner/go-karbo/zz_verif/ref"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
	"github.com/r3volut1oner/go-karbo/zz_verif/vnet"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"
)

// Message numbers of the protocol.
const (
	Handshake    = 1001
	TimedSync    = 1002
	Ping         = 1003
	NewBlock     = 2001
	NewTxs       = 2002
	GetObjects   = 2003
	Objects      = 2004
	RequestChain = 2006
	ChainEntry   = 2007
	TxPool       = 2008
	NewLite      = 2009
)

var msgs = map[string]*kvm.Msg{}

func init() {
	for i := range kvm.Msgs {
		msgs[kvm.Msgs[i].Name] = &kvm.Msgs[i]
	}
}

// Encode a message from its fields.
func Encode(name string, fields ...interface{}) []byte {
	return ref.KVEncode(msgs[name].T, kvm.L(fields))
}

// Without encodes a message that lacks some of its fields (given as "field" or "field.field").
func Without(name string, drop []string, fields ...interface{}) []byte {
	var cut func(prefix string, t ref.KVType, v kvm.L) (ref.KVType, kvm.L)
	cut = func(prefix string, t ref.KVType, v kvm.L) (ref.KVType, kvm.L) {
		u, w := ref.KVType{Kind: t.Kind, N: t.N}, kvm.L{}
	next:
		for i, f := range t.Fields {
			for _, d := range drop {
				if d == prefix+f.Name {
					continue next
				}
			}
			x := v[i]
			if l, ok := x.(kvm.L); ok && f.T.Kind == ref.KObj {
				f.T, l = cut(prefix+f.Name+".", f.T, l)
				x = l
			}
			u.Fields = append(u.Fields, f)
			w = append(w, x)
		}
		return u, w
	}
	t, v := cut("", msgs[name].T, kvm.L(fields))
	return ref.KVEncode(t, v)
}

// Decode a message to its fields; ok is false if it is malformed.
func Decode(name string, b []byte) (fields kvm.L, ok bool) {
	v, verdict := ref.KVDecode(msgs[name].T, b)
	if verdict != ref.KVAccept {
		return nil, false
	}
	return v.(kvm.L), true
}

// Malformed says that a message must be refused.
func Malformed(name string, b []byte) bool {
	_, verdict := ref.KVDecode(msgs[name].T, b)
	return verdict == ref.KVReject
}

type Frame struct {
	Cmd     uint32
	Return  byte
	Flags   uint32
	Code    int32
	Payload []byte
}

func (f Frame) Bytes() []byte {
	b := binary.LittleEndian.AppendUint64(nil, 0x0101010101012101)
	b = binary.LittleEndian.AppendUint64(b, uint64(len(f.Payload)))
	b = append(b, f.Return)
	b = binary.LittleEndian.AppendUint32(b, f.Cmd)
	b = binary.LittleEndian.AppendUint32(b, uint32(f.Code))
	b = binary.LittleEndian.AppendUint32(b, f.Flags)
	b = binary.LittleEndian.AppendUint32(b, 1)
	return append(b, f.Payload...)
}

func (f Frame) String() string {
	return fmt.Sprintf("%d(ret=%d flags=%d %d bytes)", f.Cmd, f.Return, f.Flags, len(f.Payload))
}

func Command(cmd uint32, payload []byte) Frame { return Frame{cmd, 1, 1, 0, payload} }
func Notify(cmd uint32, payload []byte) Frame  { return Frame{cmd, 0, 1, 0, payload} }
func Answer(cmd uint32, payload []byte) Frame  { return Frame{cmd, 0, 2, 1, payload} }

// NodeData are the fields of a node's announcement.
func NodeData(network []byte, version byte, id uint64) kvm.L {
	return kvm.L{network, uint64(version), id, uint64(chainm.Now), uint64(32347)}
}

func SyncData(height uint32, top chainm.Hash) kvm.L {
	return kvm.L{uint64(height), append([]byte{}, top[:]...)}
}

// Hashes joins hashes; Split is its opposite.
func Hashes(l ...chainm.Hash) []byte {
	var b []byte
	for _, h := range l {
		b = append(b, h[:]...)
	}
	return b
}

func Split(b []byte) (out []chainm.Hash) {
	for ; len(b) >= 32; b = b[32:] {
		out = append(out, chainm.Hash(b[:32]))
	}
	return
}

// Peers decodes a list of peers to identities.
func Peers(b []byte) (out []uint64) {
	for ; len(b) >= 24; b = b[24:] {
		out = append(out, binary.LittleEndian.Uint64(b[8:16]))
	}
	return
}

// U and B read fields.
func U(v interface{}) uint64 { x, _ := v.(uint64); return x }
func B(v interface{}) []byte { x, _ := v.([]byte); return x }
func L(v interface{}) kvm.L  { x, _ := v.(kvm.L); return x }

// Bubble runs f in virtual time and waits for all goroutines started in it. A goroutine left behind is reported.
func Bubble(t *testing.T, f func()) (left string) {
	defer func() {
		if r := recover(); r != nil {
			s := fmt.Sprint(r)
			if !strings.Contains(s, "deadlock") {
				panic(r)
			}
			left = s
		}
	}()
	synctest.Test(t, func(*testing.T) { f() })
	return
}

type World struct {
	C      *vlib.Ctx
	Desc   func() string
	BC     *cryptonote.BlockChain
	Node   *p2p.Node
	Addr   string
	Peers  []*Peer
	Ctx    context.Context
	cancel context.CancelFunc
	run    func() error
	done   chan struct{}
	err    error
}

// Logger formats everything and writes nothing.
var Logger = func() *zap.Logger {
	enc := zapcore.NewConsoleEncoder(zap.NewProductionEncoderConfig())
	return zap.New(zapcore.NewCore(enc, zapcore.AddSync(io.Discard), zap.DebugLevel))
}()

// New makes a node that does not run yet.
func New(c *vlib.Ctx, worker, i int, bc *cryptonote.BlockChain, desc func() string) *World {
	w := &World{C: c, BC: bc, Desc: desc, Addr: fmt.Sprintf("10.%d.%d.%d:%d", worker, i>>16&255, i>>8&255, 20000+i&255)}
	n := p2p.NewNode(bc, p2p.HostConfig{BindAddr: w.Addr, Network: bc.Network}, Logger)
	w.Node = &n
	w.Ctx, w.cancel = context.WithCancel(context.Background())
	return w
}

// Wrap makes a world of something else that runs a node: a function that runs it, and one that tells it to stop.
func Wrap(c *vlib.Ctx, addr string, run func() error, stop func(), desc func() string) *World {
	return &World{C: c, Desc: desc, Addr: addr, run: run, cancel: stop}
}

// Start runs the node.
func (w *World) Start() {
	w.done = make(chan struct{})
	go func() {
		if w.run != nil {
			w.err = w.run()
		} else {
			w.err = w.Node.Run(w.Ctx)
		}
		close(w.done)
	}()
	synctest.Wait()
	if vnet.ListenerAt(w.Addr) == nil {
		w.Fail("the node does not listen")
	}
}

func (w *World) Fail(format string, a ...interface{}) {
	w.C.Fail(w.Desc(), format, a...)
}

// Settle lets the node do what it can in a few seconds.
func Settle() {
	time.Sleep(4 * time.Second)
	synctest.Wait()
}

func (w *World) Returned() bool {
	select {
	case <-w.done:
		return true
	default:
		return false
	}
}

// Cancel tells the node to stop.
func (w *World) Cancel() { w.cancel() }

// Stop tells the node to stop and sees that it does, with everything closed.
func (w *World) Stop() {
	if w.Returned() {
		w.Fail("the node stopped by itself: %v", w.err)
	}
	w.cancel()
	t := time.Now()
	for !w.Returned() {
		time.Sleep(time.Second)
		synctest.Wait()
		if time.Since(t) > time.Minute {
			w.Fail("the node does not return within a minute after it was told to stop")
		}
	}
	if w.err != nil {
		w.Fail("the node returns an error when stopped: %v", w.err)
	}
	synctest.Wait()
	if vnet.ListenerAt(w.Addr) != nil {
		w.Fail("the node still listens after it returned")
	}
	for i, p := range w.Peers {
		if !p.Closed() {
			w.Fail("connection %d is open after the node returned", i)
		}
	}
}

// Peer is the check's end of a connection.
type Peer struct {
	W    *World
	Conn *vnet.TCPConn
	buf  []byte
	Gone bool // closed by the check
}

func (w *World) Connect() *Peer {
	k := len(w.Peers)
	conn, err := vnet.Connect(w.Addr, &net.TCPAddr{IP: net.IPv4(9, 9, 9, byte(k+1)), Port: 1000 + k})
	if err != nil {
		w.Fail("connection refused: %v", err)
	}
	p := &Peer{W: w, Conn: conn}
	w.Peers = append(w.Peers, p)
	return p
}

// Closed says that the node closed the connection.
func (p *Peer) Closed() bool { return p.Conn.OtherClosed() }

func (p *Peer) Send(f Frame) { _, _ = p.Conn.Write(f.Bytes()) }

func (p *Peer) Close() {
	p.Gone = true
	_ = p.Conn.Close()
}

var sig = binary.LittleEndian.AppendUint64(nil, 0x0101010101012101)

// Recv is what the node has sent since the last time.
func (p *Peer) Recv() (out []Frame) {
	p.buf = append(p.buf, p.Conn.Take()...)
	for len(p.buf) >= 33 {
		if !bytes.Equal(p.buf[:8], sig) {
			p.W.Fail("the node sends something that is not a message: %x", p.buf[:33])
		}
		n := binary.LittleEndian.Uint64(p.buf[8:])
		if n > uint64(len(p.buf)-33) {
			break
		}
		out = append(out, Frame{binary.LittleEndian.Uint32(p.buf[17:]), p.buf[16], binary.LittleEndian.Uint32(p.buf[25:]), int32(binary.LittleEndian.Uint32(p.buf[21:])), p.buf[33 : 33+n]})
		p.buf = p.buf[33+n:]
	}
	return
}

// Rest is a message begun and not ended.
func (p *Peer) Rest() int { return len(p.buf) }
