// Package vnet stands in for package net in the code under test. With a World installed, Listen, ListenPacket
// and Dial use an in-memory network that lives entirely inside a synctest bubble (deterministic, virtual time,
// driver-controlled segmentation and faults); without one they are the real functions.
package vnet

import (
	"context"
	"errors"
	"fmt"
	"io"
	real "net"
	"os"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"vh/vsync"
)

// W is the installed world (nil: real network).
var W *World

type World struct {
	mu            sync.Mutex
	lis           map[string]*Listener_
	pkt           map[string]*PacketConn_
	nconn         int
	OnServerClose func(id int) // first Close of the server's end of connection id
	OnListen      func(network, addr string)
	OnUnlisten    func(network, addr string)
	OnAccept      func(id int)                 // Accept returned connection id
	OnPktWrite    func(b []byte, to real.Addr) // the server sent a datagram
	DialOpts      Opts                         // used by Dial() (code under test dialing out)
	Dialed        []*Conn_                     // client ends created through net.Dial by the code under test
}

func NewWorld() *World {
	return &World{lis: map[string]*Listener_{}, pkt: map[string]*PacketConn_{}}
}

func key(network, addr string) string {
	k := "tcp"
	if strings.HasPrefix(network, "udp") {
		k = "udp"
	} else if strings.HasPrefix(network, "unix") {
		k = "unix"
	}
	return k + "|" + addr
}

func opErr(op, network string, addr real.Addr, e error) error {
	return &real.OpError{Op: op, Net: network, Addr: addr, Err: e}
}

type strAddr struct{ n, s string }

func (a strAddr) Network() string { return a.n }
func (a strAddr) String() string  { return a.s }

func mkAddr(network, addr string) real.Addr {
	if strings.HasPrefix(network, "unix") {
		return strAddr{network, addr}
	}
	h, p, err := real.SplitHostPort(addr)
	if err != nil {
		return strAddr{network, addr}
	}
	port, _ := strconv.Atoi(p)
	ip := real.ParseIP(h)
	if strings.HasPrefix(network, "udp") {
		return &real.UDPAddr{IP: ip, Port: port}
	}
	return &real.TCPAddr{IP: ip, Port: port}
}

// ---------------------------------------------------------------- listeners

type Listener_ struct {
	w       *World
	network string
	addr    string
	mu      sync.Mutex
	cond    *sync.Cond
	backlog []*Conn_
	closed  bool
	nerr    int
}

func Listen(network, addr string) (real.Listener, error) {
	w := W
	if w == nil {
		return real.Listen(network, addr)
	}
	switch network {
	case "tcp", "tcp4", "tcp6", "unix", "unixpacket":
	default:
		return nil, opErr("listen", network, nil, real.UnknownNetworkError(network))
	}
	w.mu.Lock()
	k := key(network, addr)
	if _, ok := w.lis[k]; ok {
		w.mu.Unlock()
		return nil, opErr("listen", network, mkAddr(network, addr), os.NewSyscallError("bind", syscall.EADDRINUSE))
	}
	l := &Listener_{w: w, network: network, addr: addr}
	l.cond = sync.NewCond(&l.mu)
	w.lis[k] = l
	w.mu.Unlock()
	if w.OnListen != nil {
		w.OnListen(network, addr)
	}
	return l, nil
}

func (l *Listener_) Accept() (real.Conn, error) {
	l.mu.Lock()
	for {
		if l.closed {
			l.nerr++
			spin := l.nerr > 20000
			l.mu.Unlock()
			if spin {
				panic("vnet: accept loop is spinning on a closed listener")
			}
			return nil, opErr("accept", l.network, l.Addr(), real.ErrClosed)
		}
		if len(l.backlog) > 0 {
			c := l.backlog[0]
			l.backlog = l.backlog[1:]
			if l.w.OnAccept != nil {
				l.w.OnAccept(c.ID)
			}
			l.mu.Unlock()
			return c, nil
		}
		l.cond.Wait()
	}
}

func (l *Listener_) Close() error {
	l.w.mu.Lock()
	k := key(l.network, l.addr)
	if l.w.lis[k] == l {
		delete(l.w.lis, k)
	}
	l.w.mu.Unlock()
	l.mu.Lock()
	if l.closed {
		l.mu.Unlock()
		return opErr("close", l.network, l.Addr(), real.ErrClosed)
	}
	l.closed = true
	bl := l.backlog
	l.backlog = nil
	l.cond.Broadcast()
	if l.w.OnUnlisten != nil {
		l.w.OnUnlisten(l.network, l.addr)
	}
	l.mu.Unlock()
	for _, c := range bl {
		c.reset()
	}
	return nil
}

func (l *Listener_) Addr() real.Addr { return mkAddr(l.network, l.addr) }

// Listening tells whether a stream listener (or packet socket) is open on addr.
func (w *World) Listening(network, addr string) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	k := key(network, addr)
	if strings.HasPrefix(network, "udp") {
		return w.pkt[k] != nil
	}
	return w.lis[k] != nil
}

// ---------------------------------------------------------------- stream connections

// half is one direction of a connection, owned by its reading end.
type half struct {
	mu     sync.Mutex
	cond   *sync.Cond
	chunks [][]byte
	size   int
	window int  // 0 = unlimited
	fin    bool // writer closed its side
	rst    bool
	rclose bool // reading end closed
	rdl    time.Time
	rtimer *time.Timer
}

func newHalf(window int) *half {
	h := &half{window: window}
	h.cond = sync.NewCond(&h.mu)
	return h
}

// Conn_ is one end of an in-memory stream connection.
type Conn_ struct {
	ID     int
	server bool
	w      *World
	in     *half // what this end reads
	out    *half // what this end writes (the peer's in)
	laddr  real.Addr
	raddr  real.Addr
	opts   Opts

	wmu    vsync.Mutex // write lock, like net's fdmutex: one Write call is atomic
	mu     sync.Mutex
	closed bool
	wdl    time.Time
	wtimer *time.Timer

	nerr  int
	NRead int // number of Read calls that returned data
}

// SetWindow changes how much this end buffers before the peer's Write blocks.
func (c *Conn_) SetWindow(n int) {
	c.in.mu.Lock()
	c.in.window = n
	c.in.cond.Broadcast()
	c.in.mu.Unlock()
}

type Opts struct {
	ID        int         // connection id (0: a running number)
	MaxRead   int         // at most this many bytes per server Read (0: no limit)
	ReadSizes []int       // if set, successive server Reads return at most these many bytes (cyclic)
	DataEOF   bool        // the server's last Read returns its data together with io.EOF
	Window    int         // bytes the client buffers before the server's Write blocks (0: unlimited)
	Remote    string      // client address
	ReadErr   error       // error the server's Read returns after the data, instead of EOF, once the client is done
	OnRead    func(n int) // called after the server's Read obtained n bytes
}

// DialFake connects to a listening address and returns the client's end.
func (w *World) DialFake(network, addr string, o Opts) (*Conn_, error) {
	w.mu.Lock()
	l := w.lis[key(network, addr)]
	if l == nil {
		w.mu.Unlock()
		return nil, opErr("dial", network, mkAddr(network, addr), os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	w.nconn++
	id := w.nconn
	w.mu.Unlock()
	if o.ID != 0 {
		id = o.ID
	}
	if o.Remote == "" {
		o.Remote = fmt.Sprintf("10.0.0.%d:%d", id%250+1, 40000+id)
	}
	a2s, s2a := newHalf(0), newHalf(o.Window)
	ra, la := mkAddr(network, o.Remote), mkAddr(network, addr)
	cl := &Conn_{ID: id, w: w, in: s2a, out: a2s, laddr: ra, raddr: la}
	sv := &Conn_{ID: id, w: w, in: a2s, out: s2a, laddr: la, raddr: ra, server: true, opts: o}
	l.mu.Lock()
	if l.closed {
		l.mu.Unlock()
		return nil, opErr("dial", network, la, os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	l.backlog = append(l.backlog, sv)
	l.cond.Signal()
	l.mu.Unlock()
	return cl, nil
}

func Dial(network, addr string) (real.Conn, error) {
	w := W
	if w == nil {
		return real.Dial(network, addr)
	}
	c, err := w.DialFake(network, addr, w.DialOpts)
	if err != nil {
		return nil, err
	}
	w.mu.Lock()
	w.Dialed = append(w.Dialed, c)
	w.mu.Unlock()
	return c, nil
}

func DialTimeout(network, addr string, d time.Duration) (real.Conn, error) {
	if W == nil {
		return real.DialTimeout(network, addr, d)
	}
	return Dial(network, addr)
}

// ListenConfig and Dialer stand in for their net namesakes.
type ListenConfig struct {
	Control         func(network, address string, c syscall.RawConn) error
	KeepAlive       time.Duration
	KeepAliveConfig real.KeepAliveConfig
}

func (ListenConfig) Listen(_ context.Context, network, address string) (real.Listener, error) {
	return Listen(network, address)
}

func (ListenConfig) ListenPacket(_ context.Context, network, address string) (real.PacketConn, error) {
	return ListenPacket(network, address)
}

type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       real.Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig real.KeepAliveConfig
	Resolver        *real.Resolver
	Cancel          <-chan struct{}
}

func (*Dialer) Dial(network, address string) (real.Conn, error) { return Dial(network, address) }

func (*Dialer) DialContext(_ context.Context, network, address string) (real.Conn, error) {
	return Dial(network, address)
}

func (c *Conn_) Read(b []byte) (int, error) {
	n, e := c.read(b)
	if e != nil {
		c.mu.Lock()
		c.nerr++
		spin := c.nerr > 20000
		c.mu.Unlock()
		if spin {
			panic("vnet: connection read loop is spinning on an error")
		}
	}
	return n, e
}

func (c *Conn_) read(b []byte) (int, error) {
	h := c.in
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		if h.rclose {
			return 0, opErr("read", "tcp", c.raddr, real.ErrClosed)
		}
		if !h.rdl.IsZero() && !time.Now().Before(h.rdl) {
			return 0, opErr("read", "tcp", c.raddr, os.ErrDeadlineExceeded)
		}
		if len(b) == 0 {
			return 0, nil
		}
		if len(h.chunks) > 0 {
			if h.rst {
				return 0, opErr("read", "tcp", c.raddr, os.NewSyscallError("read", syscall.ECONNRESET))
			}
			lim := len(b)
			if c.opts.MaxRead > 0 && lim > c.opts.MaxRead {
				lim = c.opts.MaxRead
			}
			if k := len(c.opts.ReadSizes); k > 0 {
				if s := c.opts.ReadSizes[c.NRead%k]; s > 0 && lim > s {
					lim = s
				}
			}
			n := copy(b[:lim], h.chunks[0])
			h.chunks[0] = h.chunks[0][n:]
			if len(h.chunks[0]) == 0 {
				h.chunks = h.chunks[1:]
			}
			h.size -= n
			c.NRead++
			h.cond.Broadcast()
			if c.opts.OnRead != nil {
				c.opts.OnRead(n)
			}
			if c.opts.DataEOF && h.fin && len(h.chunks) == 0 {
				return n, io.EOF
			}
			return n, nil
		}
		if h.rst {
			return 0, opErr("read", "tcp", c.raddr, os.NewSyscallError("read", syscall.ECONNRESET))
		}
		if h.fin {
			if c.opts.ReadErr != nil {
				return 0, c.opts.ReadErr
			}
			return 0, io.EOF
		}
		h.cond.Wait()
	}
}

func (c *Conn_) isClosed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

// Write appends b to the peer's input. The whole call is atomic with respect to other Writes on this end.
func (c *Conn_) Write(b []byte) (int, error) {
	c.wmu.LockQuietly()
	defer c.wmu.Unlock()
	h := c.out
	n := 0
	for {
		if c.isClosed() {
			return n, opErr("write", "tcp", c.raddr, real.ErrClosed)
		}
		c.mu.Lock()
		dl := c.wdl
		c.mu.Unlock()
		if !dl.IsZero() && !time.Now().Before(dl) {
			return n, opErr("write", "tcp", c.raddr, os.ErrDeadlineExceeded)
		}
		h.mu.Lock()
		if h.rclose || h.rst {
			h.mu.Unlock()
			return n, opErr("write", "tcp", c.raddr, os.NewSyscallError("write", syscall.EPIPE))
		}
		room := len(b) - n
		if h.window > 0 && room > h.window-h.size {
			room = h.window - h.size
		}
		if room > 0 || len(b) == n {
			if room > 0 {
				h.chunks = append(h.chunks, append([]byte(nil), b[n:n+room]...))
				h.size += room
				n += room
				h.cond.Broadcast()
			}
			if n == len(b) {
				h.mu.Unlock()
				return n, nil
			}
			h.mu.Unlock()
			continue
		}
		// wait for room, close or deadline (all broadcast on h.cond)
		h.cond.Wait()
		h.mu.Unlock()
	}
}

// Close closes this end; the peer reads EOF after the data already sent.
func (c *Conn_) Close() error {
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return opErr("close", "tcp", c.raddr, real.ErrClosed)
	}
	c.closed = true
	c.mu.Unlock()
	if c.server && c.w.OnServerClose != nil {
		c.w.OnServerClose(c.ID)
	}
	c.in.mu.Lock()
	c.in.rclose = true
	if c.in.rtimer != nil {
		c.in.rtimer.Stop()
	}
	c.in.cond.Broadcast()
	c.in.mu.Unlock()
	c.out.mu.Lock()
	c.out.fin = true
	c.out.cond.Broadcast()
	c.out.mu.Unlock()
	return nil
}

// reset: the connection was never accepted; both ends fail.
func (c *Conn_) reset() {
	for _, h := range []*half{c.in, c.out} {
		h.mu.Lock()
		h.rst = true
		h.cond.Broadcast()
		h.mu.Unlock()
	}
}

// Reset aborts the connection from the client's side.
func (c *Conn_) Reset() { c.reset() }

// CloseWrite sends FIN but keeps reading.
func (c *Conn_) CloseWrite() error {
	c.out.mu.Lock()
	defer c.out.mu.Unlock()
	c.out.fin = true
	c.out.cond.Broadcast()
	return nil
}

// Push delivers one segment (one server Read returns at most one segment).
func (c *Conn_) Push(b []byte) {
	if len(b) == 0 {
		return
	}
	h := c.out
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.rclose || h.rst {
		return
	}
	h.chunks = append(h.chunks, append([]byte(nil), b...))
	h.size += len(b)
	h.cond.Broadcast()
}

// PushFin delivers one segment and FIN atomically (so that DataEOF can apply).
func (c *Conn_) PushFin(b []byte) {
	h := c.out
	h.mu.Lock()
	defer h.mu.Unlock()
	if len(b) > 0 && !h.rclose {
		h.chunks = append(h.chunks, append([]byte(nil), b...))
		h.size += len(b)
	}
	h.fin = true
	h.cond.Broadcast()
}

// Unread is how many pushed bytes the server has not read yet.
func (c *Conn_) Unread() int {
	c.out.mu.Lock()
	defer c.out.mu.Unlock()
	return c.out.size
}

// Drain takes everything received so far and tells whether the peer has closed.
func (c *Conn_) Drain() (b []byte, peerClosed bool) {
	h := c.in
	h.mu.Lock()
	defer h.mu.Unlock()
	for _, x := range h.chunks {
		b = append(b, x...)
	}
	h.chunks, h.size = nil, 0
	h.cond.Broadcast()
	return b, h.fin || h.rst
}

// PeerClosed tells whether the server's end has been closed (or reset).
func (c *Conn_) PeerClosed() bool {
	h := c.in
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.fin || h.rst
}

func (c *Conn_) LocalAddr() real.Addr  { return c.laddr }
func (c *Conn_) RemoteAddr() real.Addr { return c.raddr }

func (c *Conn_) SetDeadline(t time.Time) error {
	if e := c.SetReadDeadline(t); e != nil {
		return e
	}
	return c.SetWriteDeadline(t)
}

func (c *Conn_) SetReadDeadline(t time.Time) error {
	if c.isClosed() {
		return opErr("set", "tcp", c.raddr, real.ErrClosed)
	}
	h := c.in
	h.mu.Lock()
	defer h.mu.Unlock()
	h.rdl = t
	if h.rtimer != nil {
		h.rtimer.Stop()
		h.rtimer = nil
	}
	if !t.IsZero() {
		h.rtimer = time.AfterFunc(time.Until(t), func() {
			h.mu.Lock()
			h.cond.Broadcast()
			h.mu.Unlock()
		})
	}
	h.cond.Broadcast()
	return nil
}

func (c *Conn_) SetWriteDeadline(t time.Time) error {
	if c.isClosed() {
		return opErr("set", "tcp", c.raddr, real.ErrClosed)
	}
	c.mu.Lock()
	c.wdl = t
	if c.wtimer != nil {
		c.wtimer.Stop()
		c.wtimer = nil
	}
	h := c.out
	if !t.IsZero() {
		c.wtimer = time.AfterFunc(time.Until(t), func() {
			h.mu.Lock()
			h.cond.Broadcast()
			h.mu.Unlock()
		})
	}
	c.mu.Unlock()
	h.mu.Lock()
	h.cond.Broadcast()
	h.mu.Unlock()
	return nil
}

// ---------------------------------------------------------------- datagrams

type dgram struct {
	b    []byte
	from real.Addr
}

type PacketConn_ struct {
	w       *World
	network string
	addr    string
	mu      sync.Mutex
	cond    *sync.Cond
	q       []dgram
	closed  bool
	dl      time.Time
	timer   *time.Timer
	wdl     time.Time
	NReads  int // ReadFrom calls
}

func ListenPacket(network, addr string) (real.PacketConn, error) {
	w := W
	if w == nil {
		return real.ListenPacket(network, addr)
	}
	if !strings.HasPrefix(network, "udp") {
		return nil, opErr("listen", network, nil, real.UnknownNetworkError(network))
	}
	w.mu.Lock()
	k := key(network, addr)
	if _, ok := w.pkt[k]; ok {
		w.mu.Unlock()
		return nil, opErr("listen", network, mkAddr(network, addr), os.NewSyscallError("bind", syscall.EADDRINUSE))
	}
	p := &PacketConn_{w: w, network: network, addr: addr}
	p.cond = sync.NewCond(&p.mu)
	w.pkt[k] = p
	w.mu.Unlock()
	if w.OnListen != nil {
		w.OnListen(network, addr)
	}
	return p, nil
}

// Packet returns the open packet socket on addr, or nil.
func (w *World) Packet(network, addr string) *PacketConn_ {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.pkt[key(network, addr)]
}

// Deliver queues one datagram for the server.
func (p *PacketConn_) Deliver(b []byte, from string) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.closed {
		return
	}
	p.q = append(p.q, dgram{append([]byte(nil), b...), mkAddr(p.network, from)})
	p.cond.Broadcast()
}

func (p *PacketConn_) ReadFrom(b []byte) (int, real.Addr, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.NReads++
	if p.NReads > 100000 {
		panic("vnet: packet socket read loop is spinning")
	}
	for {
		if p.closed {
			return 0, nil, opErr("read", p.network, p.LocalAddr(), real.ErrClosed)
		}
		if !p.dl.IsZero() && !time.Now().Before(p.dl) {
			return 0, nil, opErr("read", p.network, p.LocalAddr(), os.ErrDeadlineExceeded)
		}
		if len(p.q) > 0 {
			d := p.q[0]
			p.q = p.q[1:]
			return copy(b, d.b), d.from, nil
		}
		p.cond.Wait()
	}
}

func (p *PacketConn_) WriteTo(b []byte, to real.Addr) (int, error) {
	p.mu.Lock()
	closed, f, dl := p.closed, p.w.OnPktWrite, p.wdl
	p.mu.Unlock()
	if closed {
		return 0, opErr("write", p.network, p.LocalAddr(), real.ErrClosed)
	}
	if !dl.IsZero() && !time.Now().Before(dl) {
		return 0, opErr("write", p.network, p.LocalAddr(), os.ErrDeadlineExceeded)
	}
	if to == nil {
		return 0, opErr("write", p.network, nil, errors.New("missing address"))
	}
	if f != nil {
		f(append([]byte(nil), b...), to)
	}
	return len(b), nil
}

func (p *PacketConn_) Close() error {
	p.w.mu.Lock()
	k := key(p.network, p.addr)
	if p.w.pkt[k] == p {
		delete(p.w.pkt, k)
	}
	p.w.mu.Unlock()
	p.mu.Lock()
	if p.closed {
		p.mu.Unlock()
		return opErr("close", p.network, p.LocalAddr(), real.ErrClosed)
	}
	p.closed = true
	p.cond.Broadcast()
	p.mu.Unlock()
	if p.w.OnUnlisten != nil {
		p.w.OnUnlisten(p.network, p.addr)
	}
	return nil
}

func (p *PacketConn_) LocalAddr() real.Addr { return mkAddr(p.network, p.addr) }

func (p *PacketConn_) SetDeadline(t time.Time) error {
	p.SetReadDeadline(t)
	return p.SetWriteDeadline(t)
}

func (p *PacketConn_) SetReadDeadline(t time.Time) error {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.dl = t
	if p.timer != nil {
		p.timer.Stop()
		p.timer = nil
	}
	if !t.IsZero() {
		p.timer = time.AfterFunc(time.Until(t), func() {
			p.mu.Lock()
			p.cond.Broadcast()
			p.mu.Unlock()
		})
	}
	p.cond.Broadcast()
	return nil
}

func (p *PacketConn_) SetWriteDeadline(t time.Time) error {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.wdl = t
	return nil
}
