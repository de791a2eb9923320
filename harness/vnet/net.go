//go:build go1.21

// Package vnet stands in for package net in instrumented copies of the repository's packages: an in-memory network whose
// blocking operations are seen as such inside a bubble of virtual time, with faults set by the check.
package vnet

import (
	"context"
	"errors"
	"io"
	"net"
	"net/netip"
	"os"
	"strconv"
	"sync"
	"syscall"
	"time"
)

type (
	Addr                = net.Addr
	Conn                = net.Conn
	Error               = net.Error
	Listener            = net.Listener
	IP                  = net.IP
	IPMask              = net.IPMask
	IPNet               = net.IPNet
	IPAddr              = net.IPAddr
	TCPAddr             = net.TCPAddr
	UDPAddr             = net.UDPAddr
	OpError             = net.OpError
	AddrError           = net.AddrError
	ParseError          = net.ParseError
	DNSError            = net.DNSError
	UnknownNetworkError = net.UnknownNetworkError
	InvalidAddrError    = net.InvalidAddrError
	KeepAliveConfig     = net.KeepAliveConfig
	Buffers             = net.Buffers
)

var (
	ErrClosed           = net.ErrClosed
	IPv4zero            = net.IPv4zero
	IPv6zero            = net.IPv6zero
	IPv4bcast           = net.IPv4bcast
	ErrWriteToConnected = net.ErrWriteToConnected
)

func ParseIP(s string) IP                                    { return net.ParseIP(s) }
func ParseCIDR(s string) (IP, *IPNet, error)                 { return net.ParseCIDR(s) }
func IPv4(a, b, c, d byte) IP                                { return net.IPv4(a, b, c, d) }
func IPv4Mask(a, b, c, d byte) IPMask                        { return net.IPv4Mask(a, b, c, d) }
func CIDRMask(ones, bits int) IPMask                         { return net.CIDRMask(ones, bits) }
func JoinHostPort(h, p string) string                        { return net.JoinHostPort(h, p) }
func SplitHostPort(s string) (string, string, error)         { return net.SplitHostPort(s) }
func TCPAddrFromAddrPort(a netip.AddrPort) *TCPAddr          { return net.TCPAddrFromAddrPort(a) }
func Pipe() (Conn, Conn)                                     { return net.Pipe() }
func LookupHost(host string) ([]string, error)               { return nil, errors.New("vnet: no names") }
func LookupIP(host string) ([]IP, error)                     { return nil, errors.New("vnet: no names") }
func DialTimeout(n, a string, t time.Duration) (Conn, error) { return (&Dialer{Timeout: t}).Dial(n, a) }
func Dial(n, a string) (Conn, error)                         { return (&Dialer{}).Dial(n, a) }

func ResolveTCPAddr(network, address string) (*TCPAddr, error) {
	switch network {
	case "tcp", "tcp4", "tcp6", "":
	default:
		return nil, UnknownNetworkError(network)
	}
	host, port, err := net.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	if host == "localhost" {
		host = "127.0.0.1"
	}
	ip := net.ParseIP(host)
	if ip == nil && host != "" {
		return nil, &DNSError{Err: "no such host", Name: host, IsNotFound: true}
	}
	p, err := strconv.Atoi(port)
	if err != nil || p < 0 || p > 65535 {
		return nil, &AddrError{Err: "invalid port", Addr: address}
	}
	return &TCPAddr{IP: ip, Port: p}, nil
}

// ---- the network

var (
	mu        sync.Mutex
	listeners = map[string]*TCPListener{}
	holes     = map[string]bool{} // addresses that never answer
)

// Hole makes an address that never answers.
func Hole(addr string, on bool) {
	mu.Lock()
	defer mu.Unlock()
	if on {
		holes[addr] = true
	} else {
		delete(holes, addr)
	}
}

// ListenerAt is the listener bound to an address, if any.
func ListenerAt(addr string) *TCPListener {
	mu.Lock()
	defer mu.Unlock()
	return listeners[addr]
}

type ListenConfig struct {
	Control         func(network, address string, c syscall.RawConn) error
	KeepAlive       time.Duration
	KeepAliveConfig KeepAliveConfig
}

func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {
	if err := ctx.Err(); err != nil {
		return nil, &OpError{Op: "listen", Net: network, Err: err}
	}
	return Listen(network, address)
}

func Listen(network, address string) (Listener, error) {
	a, err := ResolveTCPAddr(network, address)
	if err != nil {
		return nil, err
	}
	l, err := ListenTCP(network, a)
	if err != nil {
		return nil, err
	}
	return l, nil
}

func ListenTCP(network string, a *TCPAddr) (*TCPListener, error) {
	mu.Lock()
	defer mu.Unlock()
	if listeners[a.String()] != nil {
		return nil, &OpError{Op: "listen", Net: network, Addr: a, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l := &TCPListener{addr: a, changed: make(chan struct{})}
	listeners[a.String()] = l
	return l, nil
}

type item struct {
	conn *TCPConn
	err  error
}

type TCPListener struct {
	addr     *TCPAddr
	mu       sync.Mutex
	changed  chan struct{}
	queue    []item
	closed   bool
	deadline time.Time
	accepted int

	// OnConnect sees the accepting end of a connection before the other end is given out.
	OnConnect func(c *TCPConn)
}

func (l *TCPListener) wake() {
	close(l.changed)
	l.changed = make(chan struct{})
}

func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	for {
		l.mu.Lock()
		fail := func(err error) (*TCPConn, error) {
			l.mu.Unlock()
			return nil, &OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: err}
		}
		if l.closed {
			return fail(net.ErrClosed)
		}
		if !l.deadline.IsZero() && !time.Now().Before(l.deadline) {
			return fail(os.ErrDeadlineExceeded)
		}
		if len(l.queue) > 0 {
			i := l.queue[0]
			l.queue = l.queue[1:]
			if i.err != nil {
				return fail(i.err)
			}
			l.accepted++
			l.mu.Unlock()
			return i.conn, nil
		}
		ch, d := l.changed, l.deadline
		l.mu.Unlock()
		wait(ch, d)
	}
}

func wait(ch chan struct{}, deadline time.Time) {
	if deadline.IsZero() {
		<-ch
		return
	}
	t := time.NewTimer(time.Until(deadline))
	defer t.Stop()
	select {
	case <-ch:
	case <-t.C:
	}
}

func (l *TCPListener) Accept() (Conn, error) {
	c, err := l.AcceptTCP()
	if err != nil {
		return nil, err
	}
	return c, nil
}

func (l *TCPListener) Close() error {
	l.mu.Lock()
	if l.closed {
		l.mu.Unlock()
		return &OpError{Op: "close", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
	}
	l.closed = true
	q := l.queue
	l.queue = nil
	l.wake()
	l.mu.Unlock()
	for _, i := range q {
		if i.conn != nil {
			i.conn.Abort()
		}
	}
	mu.Lock()
	delete(listeners, l.addr.String())
	mu.Unlock()
	return nil
}

func (l *TCPListener) Addr() Addr { return l.addr }

func (l *TCPListener) SetDeadline(t time.Time) error {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed {
		return &OpError{Op: "set", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
	}
	l.deadline = t
	l.wake()
	return nil
}

// Fail makes the next accept fail.
func (l *TCPListener) Fail(err error) {
	l.mu.Lock()
	l.queue = append(l.queue, item{err: err})
	l.wake()
	l.mu.Unlock()
}

// Waiting is the number of connections and failures not accepted yet.
func (l *TCPListener) Waiting() int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return len(l.queue)
}

type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       Addr
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig KeepAliveConfig
	Cancel          <-chan struct{}
}

func (d *Dialer) Dial(network, address string) (Conn, error) {
	return d.DialContext(context.Background(), network, address)
}

func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
	a, err := ResolveTCPAddr(network, address)
	if err != nil {
		return nil, &OpError{Op: "dial", Net: network, Err: err}
	}
	if d.Timeout > 0 {
		var cancel context.CancelFunc
		ctx, cancel = context.WithTimeout(ctx, d.Timeout)
		defer cancel()
	}
	if !d.Deadline.IsZero() {
		var cancel context.CancelFunc
		ctx, cancel = context.WithDeadline(ctx, d.Deadline)
		defer cancel()
	}
	fail := func(err error) (Conn, error) {
		return nil, &OpError{Op: "dial", Net: network, Addr: a, Err: err}
	}
	mu.Lock()
	hole := holes[a.String()]
	mu.Unlock()
	if hole {
		<-ctx.Done()
		if errors.Is(ctx.Err(), context.DeadlineExceeded) {
			return fail(os.ErrDeadlineExceeded)
		}
		return fail(ctx.Err())
	}
	if ctx.Err() != nil {
		return fail(ctx.Err())
	}
	c, err := Connect(address, &TCPAddr{IP: net.IPv4(127, 0, 0, 9), Port: 45678})
	if err != nil {
		return nil, err
	}
	return c, nil
}

// Connect opens a connection from an address to a listener.
func Connect(address string, from *TCPAddr) (*TCPConn, error) {
	a, err := ResolveTCPAddr("tcp", address)
	if err != nil {
		return nil, err
	}
	l := ListenerAt(a.String())
	if l == nil {
		return nil, &OpError{Op: "dial", Net: "tcp", Addr: a, Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	}
	ab, ba := newHalf(), newHalf()
	here := &TCPConn{in: ba, out: ab, local: from, remote: a}
	there := &TCPConn{in: ab, out: ba, local: a, remote: from}
	here.other, there.other = there, here
	l.mu.Lock()
	if l.closed {
		l.mu.Unlock()
		return nil, &OpError{Op: "dial", Net: "tcp", Addr: a, Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	}
	if l.OnConnect != nil {
		l.OnConnect(there)
	}
	l.queue = append(l.queue, item{conn: there})
	l.wake()
	l.mu.Unlock()
	return here, nil
}

// half is one direction of a connection.
type half struct {
	mu      sync.Mutex
	changed chan struct{}
	chunks  [][]byte // a read never crosses the end of a chunk
	size    int
	limit   int // the writer waits when there is that much unread; 0: no limit
	eof     bool
	gone    bool  // the reader closed
	reset   bool  // the connection was reset
	cutAt   int   // the write that would pass this many bytes fails ...
	cutErr  error // ... with this
	total   int
	readBy  time.Time
	writeBy time.Time
	shut    bool // the reader's own end was closed
	wshut   bool // the writer's own end was closed
}

func newHalf() *half { return &half{changed: make(chan struct{})} }

func (h *half) wake() {
	close(h.changed)
	h.changed = make(chan struct{})
}

func (h *half) set(f func()) {
	h.mu.Lock()
	f()
	h.wake()
	h.mu.Unlock()
}

func (h *half) read(b []byte) (int, error) {
	for {
		h.mu.Lock()
		switch {
		case h.shut:
			h.mu.Unlock()
			return 0, net.ErrClosed
		case h.reset:
			h.mu.Unlock()
			return 0, os.NewSyscallError("read", syscall.ECONNRESET)
		case !h.readBy.IsZero() && !time.Now().Before(h.readBy):
			h.mu.Unlock()
			return 0, os.ErrDeadlineExceeded
		case len(b) == 0:
			h.mu.Unlock()
			return 0, nil
		case len(h.chunks) > 0:
			n := copy(b, h.chunks[0])
			h.chunks[0] = h.chunks[0][n:]
			if len(h.chunks[0]) == 0 {
				h.chunks = h.chunks[1:]
			}
			h.size -= n
			h.wake()
			h.mu.Unlock()
			return n, nil
		case h.eof:
			h.mu.Unlock()
			return 0, io.EOF
		}
		ch, d := h.changed, h.readBy
		h.mu.Unlock()
		wait(ch, d)
	}
}

func (h *half) write(b []byte) (n int, err error) {
	for {
		h.mu.Lock()
		switch {
		case h.wshut:
			err = net.ErrClosed
		case h.reset:
			err = os.NewSyscallError("write", syscall.ECONNRESET)
		case h.gone:
			err = os.NewSyscallError("write", syscall.EPIPE)
		case !h.writeBy.IsZero() && !time.Now().Before(h.writeBy):
			err = os.ErrDeadlineExceeded
		}
		if err != nil || n == len(b) {
			h.mu.Unlock()
			return n, err
		}
		k := len(b) - n
		if h.limit > 0 && k > h.limit-h.size {
			k = h.limit - h.size
		}
		if h.cutErr != nil && h.total+k > h.cutAt {
			k = h.cutAt - h.total
			err = h.cutErr
		}
		if k > 0 {
			h.chunks = append(h.chunks, append([]byte{}, b[n:n+k]...))
			h.size += k
			h.total += k
			n += k
			h.wake()
		}
		if err != nil {
			h.mu.Unlock()
			return n, err
		}
		if n == len(b) {
			h.mu.Unlock()
			return n, nil
		}
		ch, d := h.changed, h.writeBy
		h.mu.Unlock()
		wait(ch, d)
	}
}

type TCPConn struct {
	in, out       *half
	local, remote *TCPAddr
	other         *TCPConn
	use           func()
}

// OnUse is called in the goroutine of the other end when it reads or writes. To be set before anything is sent.
func (c *TCPConn) OnUse(f func()) { c.other.use = f }

func (c *TCPConn) op(op string, err error) error {
	if err == nil || err == io.EOF {
		return err
	}
	return &OpError{Op: op, Net: "tcp", Source: c.local, Addr: c.remote, Err: err}
}

func (c *TCPConn) Read(b []byte) (int, error) {
	if c.use != nil {
		c.use()
	}
	n, err := c.in.read(b)
	return n, c.op("read", err)
}

func (c *TCPConn) Write(b []byte) (int, error) {
	if c.use != nil {
		c.use()
	}
	n, err := c.out.write(b)
	return n, c.op("write", err)
}

func (c *TCPConn) Close() error {
	c.in.mu.Lock()
	again := c.in.shut
	c.in.mu.Unlock()
	if again {
		return c.op("close", net.ErrClosed)
	}
	c.in.set(func() { c.in.shut, c.in.gone = true, true })
	c.out.set(func() { c.out.eof, c.out.wshut = true, true })
	return nil
}

func (c *TCPConn) CloseWrite() error {
	c.out.set(func() { c.out.eof, c.out.wshut = true, true })
	return nil
}

func (c *TCPConn) CloseRead() error {
	c.in.set(func() { c.in.gone = true; c.in.eof = true })
	return nil
}

// Abort resets the connection: unread bytes are lost.
func (c *TCPConn) Abort() {
	for _, h := range []*half{c.in, c.out} {
		h.set(func() { h.reset, h.chunks = true, nil })
	}
	c.in.set(func() { c.in.shut = true })
	c.out.set(func() { c.out.wshut = true })
}

func (c *TCPConn) LocalAddr() Addr  { return c.local }
func (c *TCPConn) RemoteAddr() Addr { return c.remote }

func (c *TCPConn) closed(op string) error {
	if c.Closed() {
		return c.op(op, net.ErrClosed)
	}
	return nil
}

func (c *TCPConn) SetDeadline(t time.Time) error {
	if err := c.SetReadDeadline(t); err != nil {
		return err
	}
	return c.SetWriteDeadline(t)
}

func (c *TCPConn) SetReadDeadline(t time.Time) error {
	c.in.set(func() { c.in.readBy = t })
	return c.closed("set")
}

func (c *TCPConn) SetWriteDeadline(t time.Time) error {
	c.out.set(func() { c.out.writeBy = t })
	return c.closed("set")
}

func (c *TCPConn) SetKeepAlive(bool) error                { return c.closed("set") }
func (c *TCPConn) SetKeepAlivePeriod(time.Duration) error { return c.closed("set") }
func (c *TCPConn) SetNoDelay(bool) error                  { return c.closed("set") }
func (c *TCPConn) SetLinger(int) error                    { return c.closed("set") }
func (c *TCPConn) SetReadBuffer(int) error                { return c.closed("set") }
func (c *TCPConn) SetWriteBuffer(int) error               { return c.closed("set") }

// ---- the check's side

// Closed says that this end was closed by its owner.
func (c *TCPConn) Closed() bool {
	c.in.mu.Lock()
	defer c.in.mu.Unlock()
	return c.in.shut
}

// OtherClosed says that the other end was closed by its owner.
func (c *TCPConn) OtherClosed() bool { return c.other.Closed() }

// Take returns what has arrived, without waiting.
func (c *TCPConn) Take() (out []byte) {
	c.in.set(func() {
		for _, x := range c.in.chunks {
			out = append(out, x...)
		}
		c.in.chunks, c.in.size = nil, 0
	})
	return
}

// Limit makes the other end wait when this much is unread.
func (c *TCPConn) Limit(n int) { c.in.set(func() { c.in.limit = n }) }

// Unread is what the other end has not read yet of the bytes sent to it.
func (c *TCPConn) Unread() int {
	c.out.mu.Lock()
	defer c.out.mu.Unlock()
	return c.out.size
}

// Cut makes the other end's write fail after n more bytes.
func (c *TCPConn) Cut(n int, err error) {
	c.in.set(func() { c.in.cutAt, c.in.cutErr = c.in.total+n, err })
}
