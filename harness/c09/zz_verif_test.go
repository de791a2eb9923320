//go:build go1.21

package p2p

import (
	"bytes"
	stdbin "encoding/binary"
	"fmt"
	"io"
	"net"
	"syscall"
	"testing"
	"time"

	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
)

var c *vlib.Ctx

type zzTimeout struct{}

func (zzTimeout) Error() string   { return "i/o timeout" }
func (zzTimeout) Timeout() bool   { return true }
func (zzTimeout) Temporary() bool { return true }

// zzConn is a connection whose peer and network are scripted.
type zzConn struct {
	in     []byte // bytes to be read
	cuts   []int  // offsets where a read ends, ascending
	pos    int
	endErr error // after the last byte
	join   bool  // the error comes with the last bytes
	empty  int   // this many reads return 0, nil first

	out     []byte
	maxOut  int // -1: no limit
	outErr  error
	closed  bool
	onWrite func(c *zzConn)
}

func (k *zzConn) Read(b []byte) (int, error) {
	if k.empty > 0 {
		k.empty--
		return 0, nil
	}
	if len(b) == 0 {
		return 0, nil
	}
	if k.pos >= len(k.in) {
		return 0, k.endErr
	}
	end := len(k.in)
	for _, x := range k.cuts {
		if x > k.pos {
			end = min(end, x)
			break
		}
	}
	n := copy(b, k.in[k.pos:end])
	k.pos += n
	if k.join && k.pos == len(k.in) {
		return n, k.endErr
	}
	return n, nil
}

func (k *zzConn) Write(b []byte) (int, error) {
	n := len(b)
	if k.maxOut >= 0 && len(k.out)+n > k.maxOut {
		n = k.maxOut - len(k.out)
	}
	k.out = append(k.out, b[:n]...)
	if n < len(b) {
		return n, k.outErr
	}
	if k.onWrite != nil {
		k.onWrite(k)
	}
	return n, nil
}

func (k *zzConn) Close() error                     { k.closed = true; return nil }
func (k *zzConn) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (k *zzConn) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (k *zzConn) SetDeadline(time.Time) error      { return nil }
func (k *zzConn) SetReadDeadline(time.Time) error  { return nil }
func (k *zzConn) SetWriteDeadline(time.Time) error { return nil }

type zzFrame struct {
	sig     uint64
	size    uint64
	ret     byte
	cmd     uint32
	code    uint32
	flags   uint32
	ver     uint32
	payload []byte
}

func (f zzFrame) bytes() []byte {
	b := stdbin.LittleEndian.AppendUint64(nil, f.sig)
	b = stdbin.LittleEndian.AppendUint64(b, f.size)
	b = append(b, f.ret)
	b = stdbin.LittleEndian.AppendUint32(b, f.cmd)
	b = stdbin.LittleEndian.AppendUint32(b, f.code)
	b = stdbin.LittleEndian.AppendUint32(b, f.flags)
	b = stdbin.LittleEndian.AppendUint32(b, f.ver)
	return append(b, f.payload...)
}

const zzSig = 0x0101010101012101

func zzF(cmd uint32, ret byte, flags uint32, payload []byte) zzFrame {
	return zzFrame{zzSig, uint64(len(payload)), ret, cmd, 0, flags, 1, payload}
}

func zzPattern(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*5 + 1)
	}
	return b
}

var zzErrs = []error{io.EOF, io.ErrUnexpectedEOF, syscall.ECONNRESET, zzTimeout{}, net.ErrClosed}

// readAll reads frames and compares them; whole is the number of frames that arrive whole.
func readAll(w int, desc func() string, conn *zzConn, frames []zzFrame, whole int) {
	p := &LevinProtocol{conn}
	for i := 0; i < whole; i++ {
		cmd, err := p.read()
		if err != nil || cmd == nil {
			c.Fail(desc(), "frame %d is not delivered: %v", i, err)
		}
		f := frames[i]
		if cmd.Command != f.cmd || cmd.IsNotify != (f.ret == 0) || cmd.IsResponse != (f.flags&2 != 0) || !bytes.Equal(cmd.Payload, f.payload) {
			c.Fail(desc(), "frame %d is delivered as command=%d notify=%v response=%v payload=%d bytes", i, cmd.Command, cmd.IsNotify, cmd.IsResponse, len(cmd.Payload))
		}
	}
	cmd, err := p.read()
	if err == nil || cmd != nil {
		c.Fail(desc(), "after %d frames the end of the stream gives a message (%v) or no error (%v)", whole, cmd, err)
	}
	c.Eval(1)
}

func zzFrames() []zzFrame {
	var out []zzFrame
	for _, n := range []int{0, 1, 2, 40} {
		for _, x := range []struct {
			ret   byte
			flags uint32
		}{{0, 1}, {1, 1}, {0, 2}, {1, 3}, {255, 0}} {
			cmd := uint32(1001)
			if n == 2 {
				cmd = 0xfffffffe
			}
			if n == 1 {
				cmd = 2004
			}
			f := zzF(cmd, x.ret, x.flags, zzPattern(n))
			out = append(out, f)
		}
	}
	f := zzF(2006, 0, 1, zzPattern(3))
	f.code, f.ver = 0xffffffff, 7
	return append(out, f)
}

func TestVerif(t *testing.T) {
	c = vlib.New("C09")
	fs := zzFrames()

	// 1. sequences of frames, every single and double cut of the stream, every premature end
	var seqs [][]zzFrame
	for _, a := range fs {
		seqs = append(seqs, []zzFrame{a})
		for _, b := range fs {
			seqs = append(seqs, []zzFrame{a, b})
			if c.Thorough {
				for _, d := range fs {
					seqs = append(seqs, []zzFrame{a, b, d})
				}
			}
		}
	}
	for i, a := range fs {
		seqs = append(seqs, []zzFrame{a, fs[(i+7)%len(fs)], fs[(i+3)%len(fs)]})
	}
	c.Cov("frame sequences", len(seqs))
	c.Each("splits", len(seqs), func(w, i int) {
		seq := seqs[i]
		var s []byte
		var ends []int
		for _, f := range seq {
			s = append(s, f.bytes()...)
			ends = append(ends, len(s))
		}
		desc := func(cuts []int, end int, err error) func() string {
			return func() string {
				return fmt.Sprintf("stream %x cut at %v, ends at %d with %v", s, cuts, end, err)
			}
		}
		c.Distinct(string(s))
		c.Set(w, fmt.Sprintf("stream %x", s))
		all := make([]int, len(s))
		for k := range all {
			all[k] = k
		}
		for _, cuts := range [][]int{nil, all} {
			for _, e := range zzErrs {
				for _, join := range []bool{false, true} {
					for empty := 0; empty < 2; empty++ {
						readAll(w, desc(cuts, len(s), e), &zzConn{in: s, cuts: cuts, endErr: e, join: join, empty: empty, maxOut: -1}, seq, len(seq))
					}
				}
			}
		}
		for a := 1; a < len(s); a++ {
			readAll(w, desc([]int{a}, len(s), io.EOF), &zzConn{in: s, cuts: []int{a}, endErr: io.EOF, maxOut: -1}, seq, len(seq))
			for b := a + 1; b < len(s); b++ {
				readAll(w, desc([]int{a, b}, len(s), io.EOF), &zzConn{in: s, cuts: []int{a, b}, endErr: io.EOF, maxOut: -1}, seq, len(seq))
			}
		}
		// the stream ends at every byte
		for end := 0; end < len(s); end++ {
			whole := 0
			for _, x := range ends {
				if end >= x {
					whole++
				}
			}
			for k, e := range zzErrs {
				for _, cuts := range [][]int{nil, all, {end / 2}} {
					if k > 1 && cuts != nil {
						continue
					}
					readAll(w, desc(cuts, end, e), &zzConn{in: s[:end], cuts: cuts, endErr: e, maxOut: -1}, seq, whole)
				}
			}
		}
	})
	// three cuts of one frame and of two short ones
	var trip [][]zzFrame
	for _, a := range fs {
		trip = append(trip, []zzFrame{a})
	}
	trip = append(trip, []zzFrame{fs[0], fs[6]}, []zzFrame{fs[7], fs[12]})
	c.Each("triple cuts", len(trip), func(w, i int) {
		seq := trip[i]
		var s []byte
		for _, f := range seq {
			s = append(s, f.bytes()...)
		}
		c.Set(w, fmt.Sprintf("stream %x", s))
		for a := 1; a < len(s); a++ {
			for b := a + 1; b < len(s); b++ {
				for d := b + 1; d < len(s); d++ {
					cuts := []int{a, b, d}
					readAll(w, func() string { return fmt.Sprintf("stream %x cut at %v", s, cuts) }, &zzConn{in: s, cuts: cuts, endErr: io.EOF, maxOut: -1}, seq, len(seq))
				}
			}
		}
	})

	// 2. bad heads: every bit of the signature, sizes over the limit
	type bad struct {
		name string
		f    zzFrame
	}
	var bads []bad
	for bit := 0; bit < 64; bit++ {
		for _, n := range []int{0, 5} {
			f := zzF(1001, 1, 1, zzPattern(n))
			f.sig ^= 1 << bit
			bads = append(bads, bad{fmt.Sprintf("signature bit %d", bit), f})
		}
	}
	for v := 0; v < 256; v++ {
		for k := 0; k < 8; k++ {
			f := zzF(1001, 1, 1, nil)
			f.sig = f.sig&^(0xff<<(8*k)) | uint64(v)<<(8*k)
			if f.sig != zzSig {
				bads = append(bads, bad{"signature byte", f})
			}
		}
	}
	for _, s := range []uint64{0, 0x0101010101010101, 0x0121010101010101, 1<<64 - 1, zzSig + 1} {
		f := zzF(1001, 1, 1, nil)
		f.sig = s
		bads = append(bads, bad{"signature", f})
	}
	for _, size := range []uint64{100000001, 100000002, 1 << 27, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<32 + 5, 1 << 40, 1 << 62, 1<<63 - 1, 1 << 63, 1<<63 + 5, 1<<64 - 33, 1<<64 - 5, 1<<64 - 1} {
		for _, n := range []int{0, 1, 5, 100} {
			f := zzF(1001, 1, 1, zzPattern(n))
			f.size = size
			bads = append(bads, bad{fmt.Sprintf("size %d", size), f})
		}
	}
	c.Each("bad heads", len(bads), func(w, i int) {
		b := bads[i]
		desc := func() string { return fmt.Sprintf("%s: %x", b.name, b.f.bytes()) }
		c.Set(w, desc())
		good := zzF(1002, 0, 1, zzPattern(4))
		readAll(w, desc, &zzConn{in: append(b.f.bytes(), good.bytes()...), endErr: io.EOF, maxOut: -1}, nil, 0)
		readAll(w, desc, &zzConn{in: append(good.bytes(), b.f.bytes()...), endErr: io.EOF, maxOut: -1}, []zzFrame{good}, 1)
	})
	// exactly at the limit
	c.Guard(0, "size at the limit", func() {
		f := zzF(1001, 0, 1, make([]byte, 100000000))
		f.payload[99999999] = 3
		readAll(0, func() string { return "100 MB frame" }, &zzConn{in: f.bytes(), cuts: []int{20, 33, 5000000}, endErr: io.EOF, maxOut: -1}, []zzFrame{f}, 1)
		f.payload = f.payload[:99999999]
		readAll(0, func() string { return "100 MB frame, last byte missing" }, &zzConn{in: f.bytes(), endErr: io.EOF, maxOut: -1}, nil, 0)
	})

	// 3. sending: bytes of every kind of frame, every failure of the write
	type send struct {
		name string
		do   func(p *LevinProtocol) error
		want zzFrame
		call bool
	}
	status := func(s string, id uint64) (PingResponse, []byte) {
		b := []byte{0x01, 0x11, 0x01, 0x01, 0x01, 0x01, 0x02, 0x01, 0x01, 8, 6}
		b = append(b, "status"...)
		b = append(b, 10, byte(len(s)<<2))
		b = append(b, s...)
		b = append(b, 7)
		b = append(b, "peer_id"...)
		b = append(b, 5)
		b = stdbin.LittleEndian.AppendUint64(b, id)
		return PingResponse{s, id}, b
	}
	var sends []send
	for _, s := range []string{"", "OK", "0123456789abcdef"} {
		for _, cmd := range []uint32{0, 1003, 2004, 1<<32 - 1} {
			m, b := status(s, 77)
			cmd := cmd
			sends = append(sends, send{"notify", func(p *LevinProtocol) error { return p.Notify(cmd, m) }, zzFrame{zzSig, uint64(len(b)), 0, cmd, 0, 1, 1, b}, false})
			for _, code := range []int32{0, 1, -1, -2147483648} {
				code := code
				sends = append(sends, send{"reply", func(p *LevinProtocol) error { return p.Reply(cmd, m, code) }, zzFrame{zzSig, uint64(len(b)), 0, cmd, uint32(code), 2, 1, b}, false})
			}
			sends = append(sends, send{"invoke", func(p *LevinProtocol) error {
				var r PingResponse
				return p.Invoke(cmd, m, &r)
			}, zzFrame{zzSig, uint64(len(b)), 1, cmd, 0, 1, 1, b}, true})
		}
	}
	c.Each("sending", len(sends), func(w, i int) {
		s := sends[i]
		want := s.want.bytes()
		desc := fmt.Sprintf("%s command %d", s.name, s.want.cmd)
		c.Set(w, desc)
		_, rb := status("answer", 5)
		reply := zzF(s.want.cmd, 0, 2, rb).bytes()
		k := &zzConn{maxOut: -1, in: reply, endErr: io.EOF}
		if err := s.do(&LevinProtocol{k}); err != nil {
			c.Fail(desc, "not sent: %v", err)
		}
		if !bytes.Equal(k.out, want) {
			c.Fail(desc, "sent bytes differ:\n got  %x\n want %x", k.out, want)
		}
		readAll(w, func() string { return desc }, &zzConn{in: k.out, endErr: io.EOF, maxOut: -1}, []zzFrame{s.want}, 1)
		if !s.call && k.pos != 0 {
			c.Fail(desc, "something was read while sending")
		}
		for n := 0; n < len(want); n++ {
			for _, e := range []error{io.ErrClosedPipe, syscall.EPIPE, zzTimeout{}, io.ErrShortWrite} {
				k := &zzConn{maxOut: n, outErr: e, in: reply, endErr: io.EOF}
				if err := s.do(&LevinProtocol{k}); err == nil {
					c.Fail(desc, "the write failed after %d of %d bytes with %q and no error is reported", n, len(want), e)
				}
				c.Eval(1)
			}
		}
		c.Distinct(string(want))
	})

	// 4. calls: every kind of answer
	type ans struct {
		f  zzFrame
		ok bool
	}
	var answers []ans
	m, okBytes := status("answer", 9)
	wrongType := append([]byte{}, okBytes...)
	wrongType[len(wrongType)-9] = 6
	payloads := map[string][]byte{"good": okBytes, "empty": nil, "cut": okBytes[:len(okBytes)-1], "wrong type": wrongType, "no header": okBytes[9:], "foreign field": append(append([]byte{}, okBytes[:9]...), 4, 1, 'x', 8, 1)}
	for _, cmd := range []uint32{1003, 1001, 1002, 0, 2003, 1003 ^ 1<<31, 1003 ^ 1<<16, 1003 ^ 256} {
		for _, flags := range []uint32{0, 1, 2, 3, 4, 5, 6, 1 << 31, 1<<31 | 2} {
			for _, ret := range []byte{0, 1} {
				for name, p := range payloads {
					answers = append(answers, ans{zzF(cmd, ret, flags, p), cmd == 1003 && flags&2 != 0 && name == "good"})
				}
			}
		}
	}
	c.Each("answers", len(answers), func(w, i int) {
		a := answers[i]
		b := a.f.bytes()
		desc := fmt.Sprintf("call of 1003 answered with %x", b)
		c.Set(w, desc)
		run := func(k *zzConn) (PingResponse, error) {
			var r PingResponse
			k.maxOut = -1
			err := (&LevinProtocol{k}).Invoke(1003, m, &r)
			c.Eval(1)
			return r, err
		}
		cuts := [][]int{nil}
		if a.ok {
			for x := 1; x < len(b); x++ {
				cuts = append(cuts, []int{x})
			}
		}
		for _, cut := range cuts {
			r, err := run(&zzConn{in: b, cuts: cut, endErr: io.EOF})
			if a.ok && (err != nil || r.Status != "answer" || r.PeerID != 9) {
				c.Fail(desc, "the answer is not accepted: %v %v", r, err)
			}
			if !a.ok && err == nil {
				c.Fail(desc, "the answer is accepted: %v", r)
			}
		}
		// a good answer behind a wrong one does not make the call succeed with the wrong one's content
		if !a.ok {
			_, good := status("other", 3)
			r, err := run(&zzConn{in: append(append([]byte{}, b...), zzF(1003, 0, 2, good).bytes()...), endErr: io.EOF})
			if err == nil && (r.Status != "other" || r.PeerID != 3) {
				c.Fail(desc, "the call takes an answer that is not its own: %v", r)
			}
		}
		for n := 0; n < len(b); n++ {
			for _, e := range zzErrs[:3] {
				if _, err := run(&zzConn{in: b[:n], endErr: e}); err == nil {
					c.Fail(desc, "the answer ends after %d bytes with %v and no error is reported", n, e)
				}
			}
		}
		if i < 3 {
			c.Sample(desc)
		}
	})
	c.Done()
}
