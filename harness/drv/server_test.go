package drv

import (
	"bufio"
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	mrand "math/rand"
	"net"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/fwhezfwhez/tcpx"

	"vh/vnet"
	"vh/vrt"
)

var tlsCert tls.Certificate

func makeCert() {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "x"},
		NotBefore: time.Unix(0, 0), NotAfter: time.Unix(1<<33, 0), DNSNames: []string{"x"}}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
	if err != nil {
		panic(err)
	}
	tlsCert = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}
}

// client is the driver's side of one connection (or of one UDP sender).
type client struct {
	i      int // 1-based
	spec   *Conn
	lis    Lis
	rem    string
	raw    *vnet.Conn_
	tls    *tls.Conn
	q      chan func()
	bytes  []byte
	blocks [][]byte
	end    []int // end offset of unit i
	pushed int
	win    int
	npush  int  // udp: datagrams delivered
	done   bool // client has closed

	mu    sync.Mutex
	rx    []byte   // not yet parsed
	rxd   [][]byte // udp
	ctx   atomic.Pointer[tcpx.Context]
	began map[int]bool
	cls   bool
	rawN  int // raw: bytes the handler has read
	rawOK bool
}

type tag struct {
	c      int
	method string
	mar    string
	id     int
	u      string
	p      string
	hdr    bool
	spoilt bool // the headers given were changed
}

type D struct {
	scn   *Scn
	own   *tcpx.ClientPool // a pool of the application
	t0    time.Time
	w     *vnet.World
	srv   *tcpx.TcpX
	cl    []*client
	byRem map[string]*client

	mu     sync.Mutex
	ev     []Ev
	opn    int
	ntag   int
	tags   map[int]tag
	shared map[string]interface{} // headers used by many replies
	blk    map[int]chan struct{}
	ctxm   map[*tcpx.Context]int
	sleep  int // handlers in a sleep act

	rng      *mrand.Rand
	rmu      sync.Mutex
	inflight int32
	yields   int64
	lcg      uint64
	budget   int64 // virtual time the hook may still add before the next step: delays never add up to the timer slack
	live     bool
	over     bool // teardown has begun: nothing blocks any more
	still    bool // observing: no delays
	g0       int
}

// key: variables are also kept under keys that are not strings.
func key(s string) interface{} {
	if s == "q2" {
		return 2
	}
	return s
}

func (d *D) log(e string, kv ...interface{}) {
	m := Ev{"e": e, "t": time.Since(d.t0).Microseconds()}
	for i := 0; i+1 < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1]
	}
	d.mu.Lock()
	d.ev = append(d.ev, m)
	d.mu.Unlock()
}

// hook is called at every statement boundary of the code under test. It takes no lock: there is one
// processor, and any synchronisation here would hide data races of the code under test from the race detector.
//
//go:norace
func (d *D) hook(site int) {
	d.yields++
	y := d.scn.Cfg.Y
	if y == 0 || d.yields > 60000 || d.still {
		if d.yields > 300000000 {
			panic("vrt: the code under test is spinning")
		}
		return
	}
	d.lcg = d.lcg*6364136223846793005 + 1442695040888963407
	r := int(d.lcg >> 44)
	dl := delay(y, site, r, d.scn.Seed)
	if dl > 0 {
		if d.budget < int64(dl) {
			d.budget = 0
			return
		}
		d.budget -= int64(dl)
		if raceOn {
			d.inflight++
			time.Sleep(dl)
			d.inflight--
			return
		}
		atomic.AddInt32(&d.inflight, 1)
		time.Sleep(dl)
		atomic.AddInt32(&d.inflight, -1)
	}
}

func delay(y, site, r, seed int) time.Duration {
	slow := func(n uint32) bool {
		h := uint32(site*2654435761) ^ uint32(seed*40503)
		h ^= h >> 13
		h *= 0x5bd1e995
		h ^= h >> 15
		return h%n == 0
	}
	switch y {
	case 1: // every statement takes a random short time
		return time.Duration(r%900 + 1)
	case 2: // rare long delays
		if r%37 == 0 {
			return time.Duration(r%80000 + 1000)
		}
	case 3: // a few sites are always slow
		if slow(9) {
			return time.Duration(r%20000 + 20000)
		}
	case 4: // mixture
		if r%211 == 0 {
			return time.Duration(r%100000 + 1000)
		}
		if r%5 == 0 {
			return time.Duration(r%3000 + 1)
		}
	case 5: // a handful of delays that everything else can overtake
		if r%300 == 0 {
			return time.Duration(r%200000 + 600000)
		}
	case 6: // one or two sites are very slow
		if slow(60) {
			return time.Duration(r%200000 + 400000)
		}
	}
	return 0
}

// quiesce lets the system run until nothing moves except timers.
func (d *D) quiesce() {
	for i := 0; ; i++ {
		synctest.Wait()
		if atomic.LoadInt32(&d.inflight) == 0 {
			return
		}
		if i > 2000000 {
			d.live = true
			return
		}
		time.Sleep(2 * time.Microsecond)
	}
}

// rest lets everything come to rest, planned sleeps of handlers included.
func (d *D) rest() {
	d.quiesce()
	for i := 0; i < 3000; i++ {
		d.mu.Lock()
		n := d.sleep
		d.mu.Unlock()
		if n == 0 {
			break
		}
		time.Sleep(10 * time.Millisecond)
		d.quiesce()
	}
}

func (d *D) connOf(ctx *tcpx.Context) *client {
	if ctx == nil {
		return nil
	}
	var a net.Addr
	if ctx.Conn != nil {
		a = ctx.Conn.RemoteAddr()
	} else {
		a = ctx.Addr
	}
	if a == nil {
		return nil
	}
	return d.byRem[a.String()]
}

func (d *D) identify(ctx *tcpx.Context) (c, m int) {
	cl := d.connOf(ctx)
	if cl == nil {
		return 0, -1
	}
	if cl.lis.Mode == "raw" {
		return cl.i, 1
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	if m, ok := d.ctxm[ctx]; ok && m > 0 && bytes.Equal(cl.blocks[m-1], ctx.Stream) {
		return cl.i, m
	}
	first := -1
	for j, b := range cl.blocks {
		if bytes.Equal(b, ctx.Stream) {
			if first < 0 {
				first = j + 1
			}
			if !cl.began[j+1] {
				first = j + 1
				break
			}
		}
	}
	if first > 0 {
		d.ctxm[ctx] = first
		cl.began[first] = true
	}
	return cl.i, first
}

// link makes one middleware or handler.
func (d *D) link(name, addr string) func(ctx *tcpx.Context) {
	return func(ctx *tcpx.Context) {
		c, m := d.identify(ctx)
		d.log("in", "c", c, "m", m, "k", name)
		pan := true
		defer func() {
			m2 := m
			if m > 0 && d.cl[c-1].lis.Mode != "raw" && !bytes.Equal(ctx.Stream, d.cl[c-1].blocks[m-1]) {
				m2 = -1
			}
			d.log("out", "c", c, "m", m, "k", name, "pan", pan, "same", m2 == m)
		}()
		if c > 0 {
			cl := d.cl[c-1]
			var acts []Act
			if cl.lis.Mode == "raw" {
				acts = cl.spec.Raw
			} else if m > 0 {
				acts = cl.spec.Units[m-1].Do
			}
			for _, a := range acts {
				if a.K == addr {
					d.act(ctx, cl, m, name, a)
				}
			}
		}
		pan = false
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func e2i(e error) int { return b2i(e == nil) }

func (d *D) newTag(t tag) (int, string) {
	d.mu.Lock()
	d.ntag++
	n := d.ntag
	t.p = pad(n*7+d.scn.Seed, len(t.p))
	d.tags[n] = t
	d.mu.Unlock()
	return n, fmt.Sprintf("T%dE", n)
}

func (d *D) blockChan(n int) chan struct{} {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.blk[n] == nil {
		d.blk[n] = make(chan struct{})
		if d.over {
			close(d.blk[n])
		}
	}
	return d.blk[n]
}

func (d *D) release(n int) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.blk[n] == nil {
		d.blk[n] = make(chan struct{})
	}
	select {
	case <-d.blk[n]:
	default:
		close(d.blk[n])
	}
}

// act performs one action on ctx. m is the unit, 0 outside a request.
func (d *D) act(ctx *tcpx.Context, cl *client, m int, k string, a Act) {
	d.mu.Lock()
	d.opn++
	o := d.opn
	d.mu.Unlock()
	c := cl.i
	begin := func(kv ...interface{}) {
		d.log("b", append([]interface{}{"o", o, "c", c, "m", m, "k", k, "a", a.A, "s", a.S, "n", a.N, "x", a.X}, kv...)...)
	}
	end := func(r int) { d.log("e", "o", o, "r", r) }
	one := func(r int) {
		d.log("a", "o", o, "c", c, "m", m, "k", k, "a", a.A, "s", a.S, "n", a.N, "r", r)
	}
	if a.A == "tocon" && d.cl[a.X-1].ctx.Load() == nil {
		return
	}
	switch a.A {
	case "next":
		begin()
		ctx.Next()
		end(1)
	case "abort":
		ctx.Abort()
		one(1)
	case "panic":
		one(1)
		switch a.N % 4 {
		case 0:
			panic("planned panic")
		case 1:
			panic(errors.New("planned error"))
		case 2:
			var mm map[string]int
			mm["x"] = 1
		case 3:
			panic(struct{ a []byte }{[]byte("x")})
		}
	case "sleep":
		begin()
		d.mu.Lock()
		d.sleep++
		d.mu.Unlock()
		time.Sleep(time.Duration(a.N) * time.Microsecond)
		d.mu.Lock()
		d.sleep--
		d.mu.Unlock()
		end(1)
	case "block":
		begin()
		<-d.blockChan(a.N)
		end(1)
	case "reply", "sendto", "tocon":
		method := a.S
		hdr := false
		if strings.HasSuffix(method, "+H") {
			method, hdr = method[:len(method)-2], true
		}
		mar := d.scn.Cfg.Mar
		switch method {
		case "JSON", "JSONURL":
			mar = "json"
		case "XML":
			mar = "xml"
		case "TOML":
			mar = "toml"
		case "YAML":
			mar = "yaml"
		case "ProtoBuf", "PBURL":
			mar = "protobuf"
		}
		if strings.HasPrefix(method, "RWM:") {
			mar = method[4:]
		}
		if a.A != "reply" {
			mar = d.scn.Cfg.Mar
			hdr = a.N%2 == 1
		}
		tg := tag{c: c, method: method, mar: mar, id: a.N, p: strings.Repeat("x", a.X), hdr: hdr}
		if method == "JSONURL" || method == "PBURL" {
			tg.id, tg.u = 0, cl.spec.Units[m-1].U
		}
		n, t := d.newTag(tg)
		d.mu.Lock()
		p := d.tags[n].p
		d.mu.Unlock()
		src := srcBody(mar, t, p)
		if method == "BAD" {
			src = make(chan int)
		}
		var hs []map[string]interface{}
		if hdr {
			// one map is the same for all replies of the scenario
			own := map[string]interface{}{"hk": "v" + t, "h1": float64(n)}
			switch n % 3 {
			case 0:
				hs = []map[string]interface{}{d.shared, own}
			case 1:
				hs = []map[string]interface{}{own, d.shared}
			default:
				hs = []map[string]interface{}{own}
			}
			defer func() {
				if !reflect.DeepEqual(own, map[string]interface{}{"hk": "v" + t, "h1": float64(n)}) {
					d.mu.Lock()
					tg := d.tags[n]
					tg.spoilt = true
					d.tags[n] = tg
					d.mu.Unlock()
				}
			}()
		}
		begin("tg", n, "id", tg.id, "u", tg.u)
		var e error
		id := int32(a.N)
		switch {
		case a.A == "sendto":
			e = ctx.SendToUsername(a.S, id, src, hs...)
		case a.A == "tocon":
			e = ctx.SendToConn(d.cl[a.X-1].ctx.Load(), id, src, hs...)
		case method == "Reply" || method == "BAD":
			e = ctx.Reply(id, src, hs...)
		case method == "JSON":
			e = ctx.JSON(id, src, hs...)
		case method == "XML":
			e = ctx.XML(id, src, hs...)
		case method == "TOML":
			e = ctx.TOML(id, src, hs...)
		case method == "YAML":
			e = ctx.YAML(id, src, hs...)
		case method == "ProtoBuf":
			e = ctx.ProtoBuf(id, src, hs...)
		case method == "JSONURL":
			e = ctx.JSONURLPattern(src)
		case method == "PBURL":
			e = ctx.ProtobufURLPattern(src)
		case strings.HasPrefix(method, "RWM:"):
			e = ctx.ReplyWithMarshaller(marshallerOf(method[4:]), id, src, hs...)
		default:
			panic("harness: unknown reply method " + method)
		}
		end(e2i(e))
	case "sreq":
		ctx.SetCtxPerRequest(key(a.S), a.N)
		one(1)
	case "greq":
		v, ok := ctx.GetCtxPerRequest(key(a.S))
		r := -1
		if ok {
			r, _ = v.(int)
		}
		one(r)
	case "scon":
		begin()
		ctx.SetCtxPerConn(key(a.S), a.N)
		end(1)
	case "gcon":
		begin()
		v, ok := ctx.GetCtxPerConn(key(a.S))
		r := -1
		if ok {
			r, _ = v.(int)
		}
		end(r)
	case "sres": // reserved keys are refused
		pan := 0
		func() {
			defer func() {
				if recover() != nil {
					pan = 1
				}
			}()
			ctx.SetCtxPerConn(a.S, a.N)
		}()
		one(pan)
	case "online":
		begin()
		end(e2i(ctx.Online(a.S)))
	case "offline":
		begin()
		end(e2i(ctx.Offline()))
	case "uname":
		u, ok := ctx.Username()
		u2 := ctx.GetUsername()
		d.log("un", "c", c, "m", m, "s", u, "ok", ok && u == u2 || !ok && u2 == "")
	case "lookup":
		begin()
		r := 0
		if p := ctx.GetPoolRef(); p != nil {
			if x := p.GetClientPool(a.S); x != nil {
				r = -1
				if y := d.connOf(x); y != nil {
					r = y.i
				}
				_, _, _ = x.ClientIP(), x.Network(), x.GetUsername() // a user's context is looked at while it is handling a request
			}
		}
		end(r)
	case "mon":
		begin()
		d.own.Online(a.S, ctx)
		end(1)
	case "moff":
		begin()
		d.own.Offline(a.S)
		end(1)
	case "mget":
		begin()
		r := 0
		if x := d.own.GetClientPool(a.S); x != nil {
			r = -1
			if y := d.connOf(x); y != nil {
				r = y.i
			}
		}
		end(r)
	case "close":
		begin()
		ctx.CloseConn()
		end(1)
	case "beat":
		begin()
		ctx.RecvHeartBeat()
		end(1)
	case "pass":
		begin()
		ctx.RecvAuthPass()
		end(1)
	case "deny":
		begin()
		ctx.RecvAuthDeny()
		end(1)
	case "dl", "rdl", "wdl":
		begin()
		var t time.Time
		if a.N != -1 { // may lie in the past
			t = time.Now().Add(time.Duration(a.N) * time.Microsecond)
		}
		var e error
		switch a.A {
		case "dl":
			e = ctx.SetDeadline(t)
		case "rdl":
			e = ctx.SetReadDeadline(t)
		case "wdl":
			e = ctx.SetWriteDeadline(t)
		}
		end(e2i(e))
	case "bind":
		one(d.bind(ctx, cl, m))
	case "ip":
		host, _, _ := net.SplitHostPort(cl.rem)
		one(b2i(ctx.ClientIP() == host && ctx.Network() == map[bool]string{true: "udp", false: "tcp"}[cl.lis.Mode == "udp"]))
	case "isup":
		begin()
		on, off := ctx.IsOnline(), ctx.IsOffline()
		r := -1
		if on != off {
			r = b2i(on)
		}
		end(r)
	case "rread": // raw: read until n bytes in total (or the stream ends)
		begin()
		end(d.rawRead(ctx, cl, a.N, a.X))
	case "rwrite":
		n, t := d.newTag(tag{c: c, method: "raw", mar: "json", id: 5, p: strings.Repeat("x", a.X)})
		d.mu.Lock()
		p := d.tags[n].p
		d.mu.Unlock()
		u := Unit{ID: 5, RT: "none"}
		_ = u
		bb := encBody("json", t, p)
		blk := append(append(append(append(be(int64(12+len(bb))), be(5)...), be(0)...), be(int64(len(bb)))...), bb...)
		begin("tg", n, "id", 5, "u", "")
		e := tcpx.WriteConn(blk, ctx.Conn)
		if a.S == "w" {
			e = nil
		}
		end(e2i(e))
	case "rwritew": // through ConnWriter
		n, t := d.newTag(tag{c: c, method: "raw", mar: "json", id: 5, p: strings.Repeat("x", a.X)})
		d.mu.Lock()
		p := d.tags[n].p
		d.mu.Unlock()
		bb := encBody("json", t, p)
		blk := append(append(append(append(be(int64(12+len(bb))), be(5)...), be(0)...), be(int64(len(bb)))...), bb...)
		begin("tg", n, "id", 5, "u", "")
		_, e := ctx.ConnWriter.Write(blk)
		end(e2i(e))
	default:
		panic("harness: unknown act " + a.A)
	}
}

func (d *D) rawRead(ctx *tcpx.Context, cl *client, n, size int) int {
	if size == 0 {
		size = 512
	}
	buf := make([]byte, size)
	for cl.rawN < n {
		lim := len(buf)
		if n-cl.rawN < lim {
			lim = n - cl.rawN
		}
		k, e := ctx.ConnReader.Read(buf[:lim])
		if k > 0 {
			if cl.rawN+k > len(cl.bytes) || !bytes.Equal(buf[:k], cl.bytes[cl.rawN:cl.rawN+k]) {
				cl.rawOK = false
			}
			cl.rawN += k
			d.log("rd", "c", cl.i, "n", cl.rawN, "ok", cl.rawOK)
		}
		if e != nil {
			return -1
		}
	}
	return 1
}

func (d *D) bind(ctx *tcpx.Context, cl *client, m int) int {
	mar := d.scn.Cfg.Mar
	b := cl.blocks[m-1]
	f, n := parseFrame(b)
	if n <= 0 {
		return -1
	}
	wt, wp, _ := decBody(mar, f.body)
	dst := dstBody(mar)
	msg, e := ctx.Bind(dst)
	if e != nil || msg.MessageID != f.id {
		return 0
	}
	t, p := gotBody(mar, dst)
	if t != wt || p != wp {
		return 0
	}
	hb, _ := json.Marshal(msg.Header)
	wb, _ := json.Marshal(f.hdr)
	if !bytes.Equal(hb, wb) {
		return 0
	}
	raw, e := ctx.RawStream()
	if e != nil || !bytes.Equal(raw, f.body) {
		return 0
	}
	dst = dstBody(mar)
	if _, e = ctx.BindWithMarshaller(dst, marshallerOf(mar)); e != nil {
		return 0
	}
	if t, p = gotBody(mar, dst); t != wt || p != wp {
		return 0
	}
	return 1
}

func (d *D) cb(name string, acts func(cl *client) []Act) func(ctx *tcpx.Context) {
	return func(ctx *tcpx.Context) {
		cl := d.connOf(ctx)
		c := 0
		if cl != nil {
			c = cl.i
			if name == "conn" {
				cl.ctx.Store(ctx)
			}
			if name == "cls" {
				cl.mu.Lock()
				cl.cls = true
				cl.mu.Unlock()
			}
		}
		d.log(name, "c", c)
		if cl != nil {
			for _, a := range acts(cl) {
				d.act(ctx, cl, 0, name, a)
			}
		}
		d.log(name+"ret", "c", c)
	}
}

func (d *D) setup() {
	s := d.scn
	cfg := &s.Cfg
	d.srv = tcpx.NewTcpX(marshallerOf(cfg.Mar))
	srv := d.srv
	if cfg.Max != 0 {
		srv.SetMaxBytePerMessage(int32(cfg.Max))
	}
	if cfg.Pool {
		srv.WithBuiltInPool(true)
	}
	if cfg.Sig {
		srv.WithBroadCastSignal(true)
	}
	if cfg.OcC {
		srv.OnConnect = d.cb("conn", func(c *client) []Act { return c.spec.Oc })
	}
	if cfg.OcL {
		srv.OnClose = d.cb("cls", func(c *client) []Act { return c.spec.Cl })
	}
	if cfg.HB.Loss {
		srv.SetEventOnHeartbeatLoss(d.cb("loss", func(c *client) []Act { return c.spec.Ls }))
	}
	if cfg.OnMsg {
		srv.OnMessage = d.link("om", "h")
	}
	if cfg.TLS {
		srv.TLSConfig = &tls.Config{Certificates: []tls.Certificate{tlsCert}}
	}
	srv.HandleRaw = d.link("raw", "h")
	off := func(n int) time.Time { return d.t0.Add(time.Duration(n) * time.Microsecond) }
	if cfg.Dl > 0 {
		srv.SetDeadline(off(cfg.Dl))
	}
	if cfg.Rdl > 0 {
		srv.SetReadDeadline(off(cfg.Rdl))
	}
	if cfg.Wdl > 0 {
		srv.SetWriteDeadline(off(cfg.Wdl))
	}
	ng := 0
	for i, p := range cfg.Prog {
		pan := func() (pan bool) {
			defer func() { pan = recover() != nil }()
			hs := func() []func(*tcpx.Context) {
				var l []func(*tcpx.Context)
				for j := 1; j <= p.N; j++ {
					l = append(l, d.link(fmt.Sprintf("s%d.%d", i+1, j), fmt.Sprintf("s%d", j)))
				}
				return append(l, d.link(fmt.Sprintf("h%d", i+1), "h"))
			}
			switch p.Op {
			case "global":
				var l []func(*tcpx.Context)
				for j := 0; j < p.N; j++ {
					ng++
					l = append(l, d.link(fmt.Sprintf("g%d", ng), fmt.Sprintf("g%d", ng)))
				}
				srv.UseGlobal(l...)
			case "use":
				var l []interface{}
				for _, k := range p.Ks {
					l = append(l, k, d.link("k"+k, "k"+k))
				}
				srv.Use(l...)
			case "unuse":
				srv.UnUse(p.Ks...)
			case "add":
				srv.AddHandler(int32(p.ID), hs()...)
			case "any":
				srv.Any(p.U, hs()...)
			case "hb":
				iv := time.Duration(cfg.HB.Iv) * time.Microsecond
				if cfg.HB.ID == tcpx.DEFAULT_HEARTBEAT_MESSAGEID && !cfg.HB.Thru {
					srv.HeartBeatMode(cfg.HB.On, iv)
				} else {
					srv.HeartBeatModeDetail(cfg.HB.On, iv, cfg.HB.Thru, int32(cfg.HB.ID))
				}
			case "rwhb":
				srv.RewriteHeartBeatHandler(int32(p.ID), hs()[p.N])
			case "auth":
				srv.WithAuthDetail(cfg.Auth.On, time.Duration(cfg.Auth.Dl)*time.Microsecond, cfg.Auth.Thru, int32(cfg.Auth.ID), hs()[p.N])
			default:
				panic("harness: unknown prog op " + p.Op)
			}
			return false
		}()
		d.log("reg", "i", i+1, "pan", pan)
	}
}

func (d *D) serve(i int) {
	l := d.scn.Cfg.Lis[i]
	go func() {
		d.listen(l)
		d.log("sret", "l", i+1)
	}()
}

func (d *D) listen(l Lis) error {
	switch {
	case l.Mode == "raw":
		return d.srv.ListenAndServeRaw(l.N, l.A)
	case l.Mode == "udp" && l.Buf > 0:
		return d.srv.ListenAndServeUDP(l.N, l.A, l.Buf)
	}
	return d.srv.ListenAndServe(l.N, l.A)
}

// run1 runs f on its own goroutine; unless g, it waits until f has returned or nothing moves any more.
func (d *D) run1(g bool, f func()) {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	if g {
		return
	}
	for i := 0; ; i++ {
		synctest.Wait()
		select {
		case <-done:
			return
		default:
		}
		if atomic.LoadInt32(&d.inflight) == 0 || i > 2000000 {
			return
		}
		time.Sleep(2 * time.Microsecond)
	}
}

func (d *D) dial(c *client) {
	if c.lis.Mode == "udp" {
		d.log("dial", "c", c.i, "ok", true)
		return
	}
	d.log("dial0", "c", c.i)
	o := vnet.Opts{ID: c.i, Remote: c.rem, ReadSizes: c.spec.Rs, DataEOF: c.spec.Eof, Window: c.spec.Win}
	o.OnRead = func(n int) {
		c.mu.Lock()
		x := c.cls
		c.mu.Unlock()
		if x {
			d.log("rac", "c", c.i)
		}
	}
	raw, e := d.w.DialFake(c.lis.N, c.lis.A, o)
	d.log("dial", "c", c.i, "ok", e == nil)
	if e != nil {
		return
	}
	c.raw = raw
	if d.scn.Cfg.TLS && c.lis.Mode == "pack" {
		c.tls = tls.Client(raw, &tls.Config{InsecureSkipVerify: true})
		c.q = make(chan func(), 100000)
		hs := make(chan struct{}) // the handshake happens on one goroutine: no waiting on the mutexes inside crypto/tls
		go func() {
			<-hs
			for f := range c.q {
				f()
			}
		}()
		go func() {
			c.tls.Handshake()
			close(hs)
			buf := make([]byte, 8192)
			for {
				n, e := c.tls.Read(buf)
				c.mu.Lock()
				c.rx = append(c.rx, buf[:n]...)
				c.mu.Unlock()
				if e != nil {
					return
				}
			}
		}()
	}
}

func (d *D) push(c *client, st Step) {
	if c.lis.Mode == "udp" {
		for c.npush < st.U && c.npush < len(c.blocks) {
			b := c.blocks[c.npush]
			if c.spec.Units[c.npush].Mal == "tail" {
				b = append(append([]byte(nil), b...), pad(c.npush, 9)...)
			}
			c.npush++
			p := d.w.Packet(c.lis.N, c.lis.A)
			d.log("push", "c", c.i, "n", c.npush, "ok", p != nil)
			if p != nil {
				p.Deliver(b, c.rem)
			}
		}
		return
	}
	if c.raw == nil || c.done {
		return
	}
	to := 0
	if st.U > 0 {
		to = c.end[min(st.U, len(c.end))-1]
	}
	if st.F > 0 && st.U < len(c.end) {
		to += (c.end[st.U] - to) * st.F / 100
	}
	if to < c.pushed {
		to = c.pushed
	}
	seg := c.bytes[c.pushed:to]
	if len(seg) == 0 && !st.Fin {
		return
	}
	c.pushed = to
	d.log("push", "c", c.i, "n", to, "ok", true)
	if st.Fin {
		d.log("fin", "c", c.i)
		c.done = true
	}
	var parts [][]byte
	for len(seg) > 0 {
		n := len(seg)
		switch {
		case st.N > 0:
			n = min(n, st.N)
		case st.N < 0:
			d.rmu.Lock()
			n = min(n, 1+d.rng.Intn(1+d.rng.Intn(40)))
			d.rmu.Unlock()
		}
		parts = append(parts, seg[:n])
		seg = seg[n:]
	}
	for i, p := range parts {
		p := p
		last := i == len(parts)-1
		if c.tls != nil {
			c.q <- func() { c.tls.Write(p) }
			continue
		}
		if last && st.Fin {
			c.raw.PushFin(p)
		} else {
			c.raw.Push(p)
		}
	}
	if st.Fin && c.tls != nil {
		c.q <- func() { c.tls.CloseWrite(); c.raw.CloseWrite() }
	} else if st.Fin && len(parts) == 0 {
		c.raw.CloseWrite()
	}
}

func (d *D) shut(c *client) {
	if c.raw == nil || c.lis.Mode == "udp" {
		return
	}
	d.log("shut", "c", c.i)
	c.done = true
	if c.tls != nil {
		c.q <- func() { c.tls.CloseWrite(); c.raw.Close() }
		return
	}
	c.raw.Close()
}

// collect parses what client c has received so far.
func (d *D) collect(c *client) {
	var fr []Ev
	bad := false
	add := func(f frame) {
		t := tagOf(f.body)
		d.mu.Lock()
		tg, ok := d.tags[t]
		d.mu.Unlock()
		x := Ev{"t": t, "id": int(f.id), "u": "", "ok": false}
		if rt, _ := f.hdr["Router-Type"].(string); rt == "URL_PATTERN" {
			x["u"], _ = f.hdr["Router-Pattern-Value"].(string)
		}
		if ok {
			bt, bp, dec := decBody(tg.mar, f.body)
			good := dec && bt == fmt.Sprintf("T%dE", t) && bp == tg.p
			if tg.hdr {
				h1, _ := f.hdr["h1"].(float64)
				k, l := "v"+bt, 3
				if t%3 == 1 {
					k = "old"
				}
				if t%3 == 2 {
					l = 2
				}
				good = good && f.hdr["hk"] == k && (l == 2 || f.hdr["hs"] == "s") && int(h1) == t && len(f.hdr) == l
			} else if tg.u == "" {
				good = good && len(f.hdr) == 0
			}
			x["ok"] = good && !tg.spoilt
		}
		fr = append(fr, x)
	}
	part := 0
	if c.lis.Mode == "udp" {
		c.mu.Lock()
		l := c.rxd
		c.rxd = nil
		c.mu.Unlock()
		for _, b := range l {
			f, n := parseFrame(b)
			if n != len(b) {
				bad = true
				continue
			}
			add(f)
		}
		if len(l) == 0 {
			return
		}
	} else {
		if c.raw == nil {
			return
		}
		if c.tls == nil {
			b, _ := c.raw.Drain()
			c.rx = append(c.rx, b...)
		}
		c.mu.Lock()
		for {
			f, n := parseFrame(c.rx)
			if n < 0 {
				bad = true
			}
			if n <= 0 {
				break
			}
			add(f)
			c.rx = c.rx[n:]
		}
		part = len(c.rx)
		c.mu.Unlock()
		if len(fr) == 0 && part == 0 && !bad {
			return
		}
	}
	if fr == nil {
		fr = []Ev{}
	}
	d.log("rx", "c", c.i, "fr", fr, "part", part, "bad", bad)
}

func (d *D) countG() int {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	return bytes.Count(buf, []byte("\ncreated by github.com/fwhezfwhez/tcpx."))
}

func (d *D) q() {
	for _, c := range d.cl {
		if c.win == 0 {
			d.collect(c)
		}
	}
	var lis, on []int
	for _, l := range d.scn.Cfg.Lis {
		lis = append(lis, b2i(d.w.Listening(l.N, l.A)))
	}
	pl := make([]int, len(d.scn.Names))
	on = make([]int, len(d.cl))
	for i := range pl {
		pl[i] = -9
	}
	for i := range on {
		on[i] = -9
	}
	haspool := false
	var qmu sync.Mutex
	d.still = true
	defer func() { d.still = false }()
	d.run1(false, func() { // on its own goroutine: a stuck lock must not stop the driver
		var pool *tcpx.ClientPool
		for i, c := range d.cl {
			v := -1
			if c.ctx.Load() != nil && c.lis.Mode != "udp" {
				x, y := c.ctx.Load().IsOnline(), c.ctx.Load().IsOffline()
				if x != y {
					v = b2i(x)
				} else {
					v = -2
				}
				if p := c.ctx.Load().GetPoolRef(); p != nil {
					pool = p
					qmu.Lock()
					haspool = true
					qmu.Unlock()
				}
			}
			qmu.Lock()
			on[i] = v
			qmu.Unlock()
		}
		for i, n := range d.scn.Names {
			v := 0
			if pool != nil {
				if x := pool.GetClientPool(n); x != nil {
					v = -1
					if y := d.connOf(x); y != nil {
						v = y.i
					}
				}
			}
			qmu.Lock()
			pl[i] = v
			qmu.Unlock()
		}
	})
	qmu.Lock()
	on, pl = append([]int{}, on...), append([]int{}, pl...)
	hp := haspool
	qmu.Unlock()
	if lis == nil {
		lis = []int{}
	}
	d.log("q", "lis", lis, "on", on, "pool", pl, "haspool", hp, "g", d.countG()-d.g0, "st", d.srv.State(), "live", d.live)
}

func (d *D) step(st Step) {
	d.budget = 3000000
	var c *client
	if st.C > 0 {
		c = d.cl[st.C-1]
	}
	switch st.Op {
	case "dial":
		d.dial(c)
	case "push":
		d.push(c, st)
	case "fin":
		if c.raw != nil && !c.done {
			d.push(c, Step{U: 0, Fin: true})
		}
	case "shut":
		d.shut(c)
	case "rst":
		if c.raw != nil {
			d.log("rst", "c", c.i)
			c.done = true
			c.raw.Reset()
		}
	case "drain":
		d.collect(c)
	case "open": // a slow client starts reading for good
		if c.raw != nil {
			c.raw.SetWindow(0)
			d.log("open", "c", c.i)
			c.win = 0
		}
	case "adv":
		time.Sleep(time.Duration(st.N) * time.Microsecond)
		d.log("adv")
	case "yield": // let things run a little
		time.Sleep(time.Duration(st.N) * time.Nanosecond)
	case "settle":
		d.quiesce()
		d.q()
	case "release":
		d.release(st.N)
	case "act":
		d.run1(st.G, func() {
			if c.ctx.Load() != nil {
				d.act(c.ctx.Load(), c, 0, "st", st.Act)
			}
		})
	case "again": // serve an address that is being served
		d.run1(st.G, func() {
			l := d.scn.Cfg.Lis[st.U-1]
			d.log("again", "l", st.U)
			var e error
			r := 1
			if guard(func() { e = d.listen(l) }) == "" && e == nil {
				r = 0
			}
			d.log("againr", "l", st.U, "r", r)
		})
	case "stop":
		d.run1(st.G, func() {
			d.log("stop", "all", st.S == "all")
			e := d.srv.Stop(st.S == "all")
			d.log("stopr", "r", e2i(e))
		})
	case "start":
		d.run1(st.G, func() {
			d.log("start")
			e := d.srv.Start()
			d.log("startr", "r", e2i(e))
		})
	case "restart":
		d.run1(st.G, func() {
			d.log("restart", "all", st.S == "all", "n", st.N)
			var fs []func()
			for i := 1; i <= st.N; i++ {
				i := i
				fs = append(fs, func() { d.log("rf", "i", i) })
			}
			e := d.srv.Restart(st.S == "all", fs...)
			d.log("restartr", "r", e2i(e))
		})
	default:
		panic("harness: unknown step " + st.Op)
	}
}

func (d *D) body() {
	s := d.scn
	d.t0 = time.Now()
	d.w = vnet.NewWorld()
	vnet.W = d.w
	li := func(n, a string) int {
		for i, l := range s.Cfg.Lis {
			if l.N == n && l.A == a {
				return i + 1
			}
		}
		return 0
	}
	d.w.OnListen = func(n, a string) { d.log("listen", "l", li(n, a)) }
	d.w.OnUnlisten = func(n, a string) { d.log("unlisten", "l", li(n, a)) }
	d.w.OnAccept = func(id int) { d.log("acc", "c", id) }
	d.w.OnServerClose = func(id int) { d.log("sclose", "c", id) }
	d.w.OnPktWrite = func(b []byte, to net.Addr) {
		if c := d.byRem[to.String()]; c != nil {
			c.mu.Lock()
			c.rxd = append(c.rxd, b)
			c.mu.Unlock()
		}
	}
	d.g0 = d.countG()
	vrt.Hook = nil
	d.setup()
	vrt.Hook = d.hook
	d.budget = 3000000
	for i := range s.Cfg.Lis {
		d.serve(i)
	}
	d.quiesce()
	d.q()
	for _, st := range s.Steps {
		d.step(st)
	}
	// teardown: whatever the scenario left open is ended, in a fixed order
	d.log("fini")
	d.budget = 3000000
	d.mu.Lock()
	d.over = true
	var bs []int
	for n := range d.blk {
		bs = append(bs, n)
	}
	d.mu.Unlock()
	for _, n := range bs {
		d.release(n)
	}
	for _, c := range d.cl {
		if c.raw != nil {
			c.raw.SetWindow(0)
			if c.win != 0 {
				d.log("open", "c", c.i)
				c.win = 0
			}
		}
	}
	d.rest()
	d.q()
	for _, c := range d.cl {
		if c.raw != nil && c.lis.Mode != "udp" {
			d.shut(c)
		}
	}
	d.rest()
	d.q()
	if len(s.Cfg.Lis) > 0 {
		d.step(Step{Op: "stop", S: "all"})
		d.rest()
		d.q()
	}
	for _, c := range d.cl {
		if c.q != nil {
			close(c.q)
			c.q = nil
		}
	}
	d.quiesce()
}

func runScn(t *testing.T, s *Scn, ready func(), done func(Trace)) {
	d := &D{scn: s, own: tcpx.NewClientPool(), byRem: map[string]*client{}, tags: map[int]tag{}, shared: map[string]interface{}{"hk": "old", "hs": "s"}, blk: map[int]chan struct{}{},
		ctxm: map[*tcpx.Context]int{}, rng: mrand.New(mrand.NewSource(int64(s.Seed)*1000003 + int64(s.ID))),
		lcg: uint64(s.Seed)*1000003 + uint64(s.ID)*7919 + 12345}
	seen := map[string]bool{}
	name := func(l []Act) {
		for _, a := range l {
			if strings.Contains(" online sendto lookup mon moff mget ", " "+a.A+" ") && a.S != "" && !seen[a.S] {
				seen[a.S] = true
				s.Names = append(s.Names, a.S)
			}
		}
	}
	s.Names = []string{}
	s.normalise()
	for _, st := range s.Steps {
		name([]Act{st.Act})
	}
	for i := range s.Conns {
		c := &client{i: i + 1, spec: &s.Conns[i], lis: s.Cfg.Lis[s.Conns[i].L-1], win: s.Conns[i].Win, began: map[int]bool{}, rawOK: true}
		c.rem = c.spec.Rem
		if c.rem == "" {
			c.rem = fmt.Sprintf("10.0.%d.%d:%d", s.ID%200, i+1, 40000+i)
		}
		d.byRem[c.rem] = c
		name(c.spec.Oc)
		name(c.spec.Cl)
		name(c.spec.Ls)
		name(c.spec.Raw)
		for j := range c.spec.Units {
			u := &c.spec.Units[j]
			name(u.Do)
			b := u.block(s.Cfg.Mar, fmt.Sprintf("c%du%d", i+1, j+1), s.Seed+i*100+j)
			for _, x := range c.blocks { // messages of one client are told apart by their bytes
				if bytes.Equal(x, b) {
					if u.Mal == "stuff" {
						u.dup = j
					} else {
						u.BL = 3 + j
					}
					b = u.block(s.Cfg.Mar, fmt.Sprintf("c%du%d", i+1, j+1), s.Seed+i*100+j)
				}
			}
			c.blocks = append(c.blocks, b)
			c.bytes = append(c.bytes, b...)
			c.end = append(c.end, len(c.bytes))
		}
		d.cl = append(d.cl, c)
	}
	ready()
	r0 := races()
	leak := ""
	defer func() { // also when the race detector ends the test
		vnet.W = nil
		vrt.Hook = nil
		d.mu.Lock()
		defer d.mu.Unlock()
		var last int64
		if len(d.ev) > 0 {
			last = d.ev[len(d.ev)-1]["t"].(int64)
		}
		if n := races() - r0; n > 0 {
			d.ev = append(d.ev, Ev{"e": "race", "t": last, "n": n})
		}
		d.ev = append(d.ev, Ev{"e": "end", "t": last, "leak": leak != "", "msg": leak})
		foresee(d.ev)
		done(Trace{s, d.ev})
	}()
	func() {
		defer func() {
			if e := recover(); e != nil {
				leak = fmt.Sprint(e)
			}
		}()
		synctest.Test(t, func(t *testing.T) { d.body() })
	}()
}

func TestServer(t *testing.T) {
	drive(t, func(t *testing.T, line []byte, ready, done func(interface{})) {
		var s Scn
		if e := json.Unmarshal(line, &s); e != nil {
			t.Fatalf("bad scenario: %v: %s", e, line)
		}
		runScn(t, &s, func() { ready(&s) }, func(tr Trace) { done(tr) })
	})
}

// drive runs every scenario of DRV_IN and writes its trace to DRV_OUT; a scenario is announced (#) before it runs.
func drive(t *testing.T, one func(t *testing.T, line []byte, ready, done func(interface{}))) {
	in, out := os.Getenv("DRV_IN"), os.Getenv("DRV_OUT")
	if in == "" {
		t.Skip()
	}
	makeCert()
	if nul, e := os.OpenFile(os.DevNull, os.O_WRONLY, 0); e == nil && os.Getenv("DRV_LOUD") == "" {
		os.Stdout = nul
	}
	runtime.GOMAXPROCS(1)
	fi, e := os.Open(in)
	if e != nil {
		t.Fatal(e)
	}
	fo, e := os.OpenFile(out, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if e != nil {
		t.Fatal(e)
	}
	sc := bufio.NewReaderSize(fi, 1<<20)
	var cur int64
	hangAfter := 40 * time.Second
	if n, e := strconv.Atoi(os.Getenv("DRV_HANG")); e == nil {
		hangAfter = time.Duration(n) * time.Second
	}
	go func() { // watchdog, in real time
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(500 * time.Millisecond)
			if n := atomic.LoadInt64(&cur); n != last {
				last, since = n, time.Now()
			} else if time.Since(since) > hangAfter {
				fmt.Fprintf(os.Stderr, "HANG scenario %d\n", n)
				buf := make([]byte, 1<<16)
				os.Stderr.Write(buf[:runtime.Stack(buf, true)])
				os.Exit(7)
			}
		}
	}()
	for {
		line, e := sc.ReadBytes('\n')
		if len(bytes.TrimSpace(line)) > 0 {
			atomic.AddInt64(&cur, 1)
			var tr interface{}
			run := func(t *testing.T) {
				one(t, line, func(s interface{}) {
					b, _ := json.Marshal(s)
					fo.Write(append(append([]byte("#"), b...), '\n'))
				}, func(x interface{}) { tr = x })
			}
			if raceOn {
				t.Run("", run)
			} else {
				run(t)
			}
			b, e := json.Marshal(tr)
			if e != nil {
				t.Fatal(e)
			}
			fo.Write(append(b, '\n'))
		}
		if e == io.EOF {
			break
		}
	}
}

// foresee notes with every pool operation what it returned, if it did: the specification need not follow orders that
// give it another result.
func foresee(ev []Ev) {
	ret := map[interface{}]interface{}{}
	for _, e := range ev {
		if e["e"] == "e" {
			ret[e["o"]] = e["r"]
		}
	}
	for _, e := range ev {
		if e["e"] == "b" {
			switch e["a"] {
			case "online", "offline", "lookup", "sendto", "mget":
				if r, ok := ret[e["o"]]; ok {
					e["rr"] = r
				}
			}
		}
	}
}
