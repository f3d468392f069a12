package drv

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	mrand "math/rand"
	"net"
	"os"
	"reflect"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/BurntSushi/toml"
	"github.com/fwhezfwhez/tcpx"
	"google.golang.org/protobuf/proto"
	"gopkg.in/yaml.v2"

	"vh/vnet"
	"vh/vrt"
)

// Codec scenarios: calls of the pack and unpack functions, of the readers and of the client helpers, generated by
// spec/CodecEnv.tla. Byte strings are logged run-length encoded, so that the specification can handle long ones.

type COp struct {
	Op   string `json:"op"` // pack, bytes, read, help
	Fn   string `json:"fn"`
	ID   int    `json:"id"`
	HK   string `json:"hk"` // header kind
	BK   string `json:"bk"` // body kind
	N    int    `json:"n"`  // body size
	Mar  string `json:"mar"`
	Tail int    `json:"tail"` // bytes that follow the block
	Decl int    `json:"decl"`
	HL   int    `json:"hl"`
	BL   int    `json:"bl"`
	Tot  int    `json:"tot"`
	Msgs []COp  `json:"msgs"`
	Cuts []int  `json:"cuts"` // read and write sizes
	Eof  bool   `json:"eof"`
	Max  int    `json:"max"`
	Bad  int    `json:"bad"` // which argument is invalid
}

type CScn struct {
	ID   int    `json:"id"`
	Fam  string `json:"fam"`
	Seed int    `json:"seed"`
	Y    int    `json:"y"`
	Par  bool   `json:"par"`
	Ops  []COp  `json:"ops"`
}

type CTrace struct {
	Scn *CScn `json:"scn"`
	Ev  []Ev  `json:"ev"`
}

type cd struct {
	mu   sync.Mutex
	ev   []Ev
	outs []cout
	now  func() int64
}

type cout struct {
	i    int
	b    []byte
	copy []byte
}

func (d *cd) log(m Ev) {
	d.mu.Lock()
	m["t"] = d.now()
	d.ev = append(d.ev, m)
	d.mu.Unlock()
}

func rle(b []byte) [][2]int {
	r := [][2]int{}
	for _, x := range b {
		if n := len(r); n > 0 && r[n-1][0] == int(x) {
			r[n-1][1]++
		} else {
			r = append(r, [2]int{int(x), 1})
		}
	}
	return r
}

// cpad: long runs with marks, so that a shift, a loss or a repetition shows
func cpad(seed, n int) string {
	b := make([]byte, n)
	run, mark := 401, 997
	if n > 60000 {
		run, mark = n/191, n/77
	}
	for i := range b {
		b[i] = "abcdefghij"[(i/run+seed)%10]
		if i%mark == 0 {
			b[i] = "0123456789"[(i/mark)%10]
		}
	}
	return string(b)
}

func cheaders(k string, id int) []map[string]interface{} {
	switch k {
	case "none":
		return nil
	case "nil":
		return []map[string]interface{}{nil}
	case "empty":
		return []map[string]interface{}{{}}
	case "simple":
		return []map[string]interface{}{{"a": 1.0, "b": "x"}}
	case "id":
		return []map[string]interface{}{{"Router-Type": "MESSAGE_ID", "Router-Pattern-Value": float64(id)}}
	case "url":
		return []map[string]interface{}{{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": "/a/b?c=d"}}
	case "two":
		return []map[string]interface{}{{"a": 1.0, "b": "x"}, {"b": "y", "c": nil}}
	case "nested":
		return []map[string]interface{}{{"n": map[string]interface{}{"l": []interface{}{1.0, "2", nil, true}}}}
	case "uni":
		return []map[string]interface{}{{"k<>&": "é\u2028<\"\\>\x00", "": "empty"}}
	case "big":
		return []map[string]interface{}{{"v": cpad(3, 3000)}}
	case "num":
		return []map[string]interface{}{{"f": 1e300, "g": -1.5e-9, "z": 0.0, "n": -7.0, "big": 9007199254740991.0, "t": true, "s": false, "l": []interface{}{}, "m": map[string]interface{}{}}}
	case "many":
		m := map[string]interface{}{}
		for i := 0; i < 24; i++ {
			m[fmt.Sprintf("key%d", i)] = float64(i)
		}
		return []map[string]interface{}{m, {"x": 1.0}, {"x": "y"}}
	case "h16":
		return []map[string]interface{}{{"v": cpad(5, 66000)}}
	case "h24":
		return []map[string]interface{}{{"v": cpad(5, 1<<24+77)}}
	case "bad":
		return []map[string]interface{}{{"ok": 1.0, "c": make(chan int)}}
	}
	return nil
}

func merged(hs []map[string]interface{}) map[string]interface{} {
	r := map[string]interface{}{}
	for _, h := range hs {
		for k, v := range h {
			r[k] = v
		}
	}
	return r
}

func (o *COp) body(seed int) (src interface{}, raw []byte, bad bool) {
	switch o.BK {
	case "nil":
		return nil, nil, false
	case "bad":
		return make(chan int), nil, true
	}
	t, p := fmt.Sprintf("m%d", o.ID), cpad(seed, o.N)
	if o.BK == "empty" {
		t, p = "", ""
	}
	return srcBody(o.Mar, t, p), encBody(o.Mar, t, p), false
}

func guard(f func()) (pan string) {
	defer func() {
		if e := recover(); e != nil {
			pan = fmt.Sprint(e)
		}
	}()
	f()
	return ""
}

func jsonMap(b []byte) (m map[string]interface{}, ok bool) {
	if len(b) == 0 {
		return nil, true
	}
	return m, json.Unmarshal(b, &m) == nil
}

func sameMap(a, b map[string]interface{}) bool {
	return len(a) == 0 && len(b) == 0 || reflect.DeepEqual(a, b)
}

func sameSrc(mar string, a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if x, ok := a.(proto.Message); ok {
		y, ok := b.(proto.Message)
		return ok && proto.Equal(x, y)
	}
	return reflect.DeepEqual(a, b)
}

func (d *cd) pack(i int, o *COp, seed int) {
	hs, hs0 := cheaders(o.HK, o.ID), cheaders(o.HK, o.ID)
	src, bb, bad := o.body(seed)
	src0, _, _ := o.body(seed)
	id := int32(o.ID)
	var h, h0 map[string]interface{}
	if len(hs) > 0 {
		h, h0 = hs[0], hs0[0]
	}
	want := merged(hs0) // what the header must hold
	mar := marshallerOf(o.Mar)
	var out []byte
	var e error
	raw := append([]byte{}, bb...)
	keep := func() bool {
		if o.BK != "bad" && !sameSrc(o.Mar, src, src0) {
			return false
		}
		if o.HK == "bad" {
			return len(hs) == len(hs0) && len(h) == len(h0)
		}
		return reflect.DeepEqual(hs, hs0) && bytes.Equal(raw, bb)
	}
	direct := func() { // functions that take one header map
		want = h0
	}
	var msg tcpx.Message
	lost := false
	pan := guard(func() {
		switch o.Fn {
		case "Packx.Pack":
			out, e = tcpx.NewPackx(mar).Pack(id, src, hs...)
		case "PackWithMarshaller":
			direct()
			msg = tcpx.Message{MessageID: id, Header: h, Body: src}
			out, e = tcpx.PackWithMarshaller(msg, mar)
		case "PackWithMarshallerName":
			direct()
			msg = tcpx.Message{MessageID: id, Header: h, Body: src}
			name := o.Mar
			if name == "" {
				name = "json"
			}
			out, e = tcpx.PackWithMarshallerName(msg, name)
		case "Pack":
			direct()
			out, e = tcpx.Pack(id, h, src, mar)
		case "Message.Pack":
			direct()
			msg = tcpx.Message{MessageID: id, Header: h, Body: src}
			out, e = msg.Pack(mar)
		case "Message.Set": // a message built key by key; what Get tells is what Set stored
			msg = tcpx.Message{MessageID: id, Body: src}
			for _, x := range hs {
				for k, v := range x {
					msg.Set(k, v)
				}
			}
			got := map[string]interface{}{}
			for k := range want {
				got[k] = msg.Get(k)
			}
			lost = o.HK != "bad" && !sameMap(got, want) || msg.Get("no such key") != nil
			out, e = msg.Pack(mar)
		case "NewMessage":
			want = map[string]interface{}{"Router-Type": "MESSAGE_ID", "Router-Pattern-Value": float64(id)}
			hs, hs0, h, h0 = nil, nil, nil, nil
			out, e = tcpx.NewMessage(id, src).Pack(mar)
		case "NewURLPatternMessage":
			want = map[string]interface{}{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": "/p/q"}
			hs, hs0, h, h0 = nil, nil, nil, nil
			id = 0
			out, e = tcpx.NewURLPatternMessage("/p/q", src).Pack(mar)
		case "Packx.PackWithBody":
			bad = false
			out, e = tcpx.NewPackx(mar).PackWithBody(id, raw, hs...)
		case "PackWithMarshallerAndBody":
			bad = false
			direct()
			out, e = tcpx.PackWithMarshallerAndBody(tcpx.Message{MessageID: id, Header: h}, raw)
		case "PackHeartbeat":
			id, want, bb, raw, bad, hs, hs0 = 1392, nil, nil, nil, false, nil, nil
			h, h0 = nil, nil
			out = tcpx.PackHeartbeat()
		case "PackStuff":
			want, bb, raw, bad, hs, hs0 = nil, nil, nil, false, nil, nil
			h, h0 = nil, nil
			out = tcpx.PackStuff(id)
		case "PackJSON":
			want = merged(hs0)
			out, e = packerOf(o.Mar).Pack(id, src, hs...)
		default:
			panic("harness: unknown function " + o.Fn)
		}
	})
	if o.Fn != "NewMessage" && o.Fn != "NewURLPatternMessage" && o.Fn != "PackHeartbeat" && o.Fn != "PackStuff" && o.HK == "bad" {
		bad = true
	}
	heq := false
	f, n := parseFrame(out)
	if n == len(out) && n > 0 {
		heq = sameMap(f.hdr, want) && !lost
	}
	d.log(Ev{"e": "pack", "i": i, "fn": o.Fn, "id": int(id), "bb": rle(bb), "ok": e == nil, "pan": pan != "", "out": rle(out), "heq": heq, "keep": keep(), "bad": bad, "msg": pan})
	if e != nil || pan != "" || bad {
		return
	}
	d.mu.Lock()
	d.outs = append(d.outs, cout{i, out, append([]byte{}, out...)})
	d.mu.Unlock()
	tails := [][]byte{nil}
	if o.Tail > 0 {
		tails = append(tails, []byte(pad(seed+7, o.Tail)))
	}
	for _, tl := range tails {
		b := append(append([]byte{}, out...), tl...)
		mr := o.Mar
		if o.Fn == "PackHeartbeat" || o.Fn == "PackStuff" || len(bb) == 0 {
			mr = ""
		}
		var ref interface{}
		if len(bb) > 0 {
			ref = src0
			if o.BK == "bad" {
				ref = nil
			}
		}
		d.acc(i, b, mr, ref, true)
	}
}

func packerOf(mar string) *tcpx.Packx {
	switch mar {
	case "xml":
		return tcpx.PackXML
	case "yaml":
		return tcpx.PackYAML
	case "toml":
		return tcpx.PackTOML
	case "protobuf":
		return tcpx.PackProtobuf
	}
	return tcpx.PackJSON
}

// acc calls every accessor on b.
func (d *cd) acc(i int, b []byte, mar string, src interface{}, packed bool) {
	b0 := append([]byte{}, b...)
	f, n := parseFrame(b)
	wf := n > 0
	r := []Ev{}
	add := func(fn string, f func(ev Ev) error) {
		ev := Ev{"fn": fn, "n": 0, "b": [][2]int{}, "eq": true, "und": false}
		var e error
		pan := guard(func() { e = f(ev) })
		ev["pan"], ev["ok"] = pan != "", e == nil && pan == ""
		if pan != "" {
			ev["msg"] = pan
		}
		r = append(r, ev)
	}
	num := func(fn string, g func([]byte) (int32, error)) {
		add(fn, func(ev Ev) error { v, e := g(b); ev["n"] = int(v); return e })
	}
	bts := func(fn string, g func([]byte) ([]byte, error)) {
		add(fn, func(ev Ev) error { v, e := g(b); ev["b"] = rle(v); return e })
	}
	px := tcpx.NewPackx(marshallerOf(mar))
	num("LengthOf", tcpx.LengthOf)
	num("LengthOf", px.LengthOf)
	num("MessageIDOf", tcpx.MessageIDOf)
	num("MessageIDOf", px.MessageIDOf)
	num("HeaderLengthOf", tcpx.HeaderLengthOf)
	num("HeaderLengthOf", px.HeaderLengthOf)
	num("BodyLengthOf", tcpx.BodyLengthOf)
	num("BodyLengthOf", px.BodyLengthOf)
	pt := tcpx.PackType(b)
	num("MessageIDOf", func([]byte) (int32, error) { return pt.MessageID() })
	bts("HeaderBytesOf", tcpx.HeaderBytesOf)
	bts("HeaderBytesOf", px.HeaderBytesOf)
	bts("BodyBytesOf", tcpx.BodyBytesOf)
	bts("BodyBytesOf", px.BodyBytesOf)
	bts("FirstBlockOfBytes", tcpx.FirstBlockOfBytes)
	bts("FirstBlockOfBytes", px.FirstBlockOfBytes)
	hdr := func(fn string, g func([]byte) (map[string]interface{}, error)) {
		add(fn, func(ev Ev) error {
			v, e := g(b)
			if wf && e == nil {
				ev["eq"] = sameMap(v, f.hdr)
			}
			return e
		})
	}
	hdr("HeaderOf", tcpx.HeaderOf)
	hdr("HeaderOf", px.HeaderOf)
	str := func(fn, key string, g func([]byte) (string, error)) {
		add(fn, func(ev Ev) error {
			v, e := g(b)
			if wf {
				w, isStr := f.hdr[key].(string)
				_, has := f.hdr[key]
				if has && !isStr { // no string to return
					return nil
				}
				ev["eq"] = e == nil && v == w
			}
			return e
		})
	}
	str("URLPatternOf", "Router-Pattern-Value", tcpx.URLPatternOf)
	str("URLPatternOf", "Router-Pattern-Value", func([]byte) (string, error) { return pt.URLPattern() })
	str("RouteTypeOf", "Router-Type", tcpx.RouteTypeOf)
	und := wf && len(f.body) > 0 && decodeRef(mar, f.body) != nil // no value can be decoded from the body
	unpack := func(fn string, g func(dst interface{}) (tcpx.Message, error)) {
		dst := dstBody(mar)
		add(fn, func(ev Ev) error {
			ev["und"] = und
			m, e := g(dst)
			ev["n"] = int(m.MessageID)
			if e == nil && wf {
				for k, v := range f.hdr {
					if !reflect.DeepEqual(m.Get(k), v) {
						ev["eq"] = false
						return nil
					}
				}
				ev["eq"] = sameMap(m.Header, f.hdr) && d.sameDst(mar, dst, m.Body, src)
			}
			return e
		})
	}
	name := mar
	if name == "" {
		name = "json"
	}
	unpack("Unpack", func(dst interface{}) (tcpx.Message, error) { return px.Unpack(b, dst) })
	unpack("Unpack", func(dst interface{}) (tcpx.Message, error) {
		return tcpx.UnpackWithMarshaller(b, dst, marshallerOf(mar))
	})
	unpack("Unpack", func(dst interface{}) (tcpx.Message, error) { return tcpx.UnpackWithMarshallerName(b, dst, name) })
	if alias := map[string]string{"toml": "tml", "yaml": "yml", "protobuf": "proto"}[name]; alias != "" {
		unpack("Unpack", func(dst interface{}) (tcpx.Message, error) { return tcpx.UnpackWithMarshallerName(b, dst, alias) })
	}
	if src != nil || !wf || !packed {
		dst := dstBody(mar)
		add("Bind", func(ev Ev) error {
			ev["und"] = und
			var e error
			switch name {
			case "json":
				e = pt.BindJSON(dst)
			case "xml":
				e = pt.BindXML(dst)
			case "yaml":
				e = pt.BindYAML(dst)
			case "toml":
				e = pt.BindTOML(dst)
			case "protobuf":
				e = pt.BindProtobuf(dst.(proto.Message))
			}
			if e == nil && wf {
				ev["eq"] = d.sameDst(mar, dst, nil, src)
			}
			return e
		})
	}
	if name == "json" && wf && src != nil { // BindJSON over the body the accessor returns
		dst := dstBody(mar)
		add("Bind", func(ev Ev) error {
			body, e := tcpx.BodyBytesOf(b)
			if e == nil {
				e = tcpx.BindJSON(body, dst)
			}
			if e == nil {
				ev["eq"] = d.sameDst(mar, dst, nil, src)
			}
			return e
		})
	}
	if wf || len(b) >= 4 && int32(binary.BigEndian.Uint32(b)) < 1<<20 {
		add("UnPackFromReader", func(ev Ev) error {
			id, h, body, e := tcpx.UnPackFromReader(bytes.NewReader(b))
			ev["n"], ev["b"] = int(id), rle(body)
			if wf {
				ev["eq"] = sameMap(h, f.hdr)
			}
			return e
		})
	}
	_, hj := jsonMap(f.hdrBytes)
	d.log(Ev{"e": "acc", "i": i, "b": rle(b0), "r": r, "keep": bytes.Equal(b, b0), "hj": hj, "packed": packed})
}

// decodeRef decodes a body with the marshalling libraries themselves.
func decodeRef(mar string, b []byte) (e error) {
	defer func() {
		if p := recover(); p != nil {
			e = fmt.Errorf("%v", p)
		}
	}()
	dst := dstBody(mar)
	switch mar {
	case "xml":
		return xml.Unmarshal(b, dst)
	case "yaml":
		return yaml.Unmarshal(b, dst)
	case "toml":
		_, e := toml.Decode(string(b), dst)
		return e
	case "protobuf":
		return proto.Unmarshal(b, dst.(proto.Message))
	}
	return json.Unmarshal(b, dst)
}

func (d *cd) sameDst(mar string, dst, body, src interface{}) bool {
	if src == nil {
		return true
	}
	if mar == "protobuf" {
		return proto.Equal(dst.(proto.Message), src.(proto.Message))
	}
	g, ok := dst.(*Body)
	if !ok || *g != src.(Body) {
		return false
	}
	if body != nil {
		if v, ok := body.(Body); ok {
			return v == src.(Body)
		}
		return false
	}
	return true
}

// arbitrary bytes with the given length fields
func (o *COp) bytes(seed int) []byte {
	b := append(append(append(be(int64(o.Decl)), be(int64(o.ID))...), be(int64(o.HL))...), be(int64(o.BL))...)
	h := []byte{}
	switch o.HK {
	case "json":
		h = []byte(`{"a":1,"Router-Type":"URL_PATTERN","Router-Pattern-Value":"/u"}`)
	case "null":
		h = []byte("null")
	case "empty":
		h = []byte("{}")
	case "text":
		h = []byte(pad(seed, 20))
	}
	b = append(b, h...)
	for len(b) < o.Tot {
		b = append(b, byte(seed+len(b)*7))
	}
	return b[:o.Tot]
}

// sreader cuts a stream into reads of the given sizes; 0 is a read that returns nothing.
type sreader struct {
	b    []byte
	cuts []int
	i    int
	eof  bool
	err  error
	zero int
}

func (r *sreader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, r.err
	}
	n := len(p)
	if len(r.cuts) > 0 {
		c := r.cuts[r.i%len(r.cuts)]
		r.i++
		if c == 0 {
			r.zero++
			if r.zero > 100 {
				c = 1
			} else {
				return 0, nil
			}
		}
		if c < n {
			n = c
		}
	}
	if n > len(r.b) {
		n = len(r.b)
	}
	copy(p, r.b[:n])
	r.b = r.b[n:]
	if len(r.b) == 0 && r.eof {
		return n, r.err
	}
	return n, nil
}

// sconn is a connection that reads from a sreader and accepts writes of limited size.
type sconn struct {
	net.Conn
	r      sreader
	w      []byte
	cuts   []int
	i      int
	fail   int // fail once this much has been written (0: never)
	ferr   error
	once   bool // only once
	failed bool
	closed bool
}

func (c *sconn) Read(p []byte) (int, error) { return c.r.Read(p) }
func (c *sconn) Write(p []byte) (int, error) {
	n := len(p)
	if len(c.cuts) > 0 {
		if k := c.cuts[c.i%len(c.cuts)]; k > 0 && k < n {
			n = k
		}
		c.i++
	}
	if c.fail > 0 && len(c.w)+n > c.fail && !(c.once && c.failed) {
		n = c.fail - len(c.w)
		if n < 0 {
			n = 0
		}
		c.w = append(c.w, p[:n]...)
		c.failed = true
		return n, c.ferr
	}
	c.w = append(c.w, p[:n]...)
	return n, nil
}
func (c *sconn) Close() error                       { c.closed = true; return nil }
func (c *sconn) SetDeadline(t time.Time) error      { return nil }
func (c *sconn) SetReadDeadline(t time.Time) error  { return nil }
func (c *sconn) SetWriteDeadline(t time.Time) error { return nil }

func (o *COp) own(seed int) []byte { // the message as the harness itself encodes it
	if o.Decl != 0 || o.Op == "bytes" {
		return o.bytes(seed)
	}
	var hb []byte
	switch o.HK {
	case "none", "nil":
		hb = []byte("null")
	case "hl0":
	default:
		hb, _ = json.Marshal(merged(cheaders(o.HK, o.ID)))
	}
	_, bb, _ := o.body(seed)
	c := append(append(append(append(be(int64(o.ID)), be(int64(len(hb)))...), be(int64(len(bb)))...), hb...), bb...)
	return append(be(int64(len(c))), c...)
}

func (d *cd) read(i int, o *COp, seed int) {
	var s []byte
	for j := range o.Msgs {
		s = append(s, o.Msgs[j].own(seed+j)...)
	}
	if o.Tot > 0 && o.Tot < len(s) {
		s = s[:o.Tot]
	}
	if o.Tail > 0 {
		s = append(s, []byte(pad(seed, o.Tail))[:o.Tail]...)
	}
	rerr := error(io.EOF)
	if o.BK == "reset" {
		rerr = errors.New("connection reset by peer")
	}
	r := &sconn{r: sreader{b: append([]byte{}, s...), cuts: o.Cuts, eof: o.Eof, err: rerr}}
	got := [][][2]int{}
	var keepb [][]byte
	var e error
	pan := guard(func() {
		for k := 0; k < 20; k++ {
			var b []byte
			switch o.Fn {
			case "FirstBlockOf":
				b, e = tcpx.FirstBlockOf(r)
			case "Packx.FirstBlockOf":
				b, e = tcpx.NewPackx(nil).FirstBlockOf(r)
			case "UnpackToBlockFromReader":
				b, e = tcpx.UnpackToBlockFromReader(r)
			case "FirstBlockOfLimitMaxByte":
				b, e = tcpx.FirstBlockOfLimitMaxByte(r, int32(o.Max))
			case "Packx.FirstBlockOfLimitMaxByte":
				b, e = tcpx.NewPackx(nil).FirstBlockOfLimitMaxByte(r, int32(o.Max))
			case "UnpackToBlockFromReaderLimitMaxLengthOfByte":
				b, e = tcpx.UnpackToBlockFromReaderLimitMaxLengthOfByte(r, o.Max)
			case "Recv":
				b, e = tcpx.Recv(r)
			default:
				panic("harness: unknown function " + o.Fn)
			}
			if e != nil {
				return
			}
			keepb = append(keepb, b)
		}
	})
	for _, b := range keepb { // blocks read earlier must not be disturbed by later reads
		got = append(got, rle(b))
	}
	d.log(Ev{"e": "read", "i": i, "fn": o.Fn, "s": rle(s), "max": o.Max, "got": got, "err": e != nil, "pan": pan != "", "msg": pan})
}

func (d *cd) help(i int, o *COp, seed int) {
	c := &sconn{}
	exp := []byte{}
	bad := false
	var e error
	closed := true
	var wrote []byte
	srcOf := func(m *COp) interface{} { s, _, _ := m.body(seed); return s }
	one := func(m *COp, hk string) {
		x := *m
		x.HK, x.Mar, x.Decl = hk, "json", 0
		exp = append(exp, x.own(seed)...)
		if m.BK == "bad" {
			bad = true
		}
	}
	if o.Fn != "TCPCallOnceJSON" && o.Decl > 0 {
		c.fail, c.ferr = o.Decl, io.ErrClosedPipe
		switch o.HK {
		case "short":
			c.ferr, c.once = io.ErrShortWrite, true
		case "eof":
			c.ferr = io.EOF
		case "tmo":
			c.ferr = os.ErrDeadlineExceeded
		}
	}
	var lis net.Listener
	pan := guard(func() {
		switch o.Fn {
		case "WriteJSON":
			m := &o.Msgs[0]
			one(m, "nil")
			e = tcpx.WriteJSON(c, int32(m.ID), srcOf(m))
		case "PipeJSON":
			args := []interface{}{}
			for j := range o.Msgs {
				m := &o.Msgs[j]
				if j == 0 {
					_, bb, _ := m.body(seed)
					hb, _ := json.Marshal(map[string]interface{}{pipeKey: fmt.Sprintf("enable;%d", len(o.Msgs))})
					k := append(append(append(append(be(int64(m.ID)), be(int64(len(hb)))...), be(int64(len(bb)))...), hb...), bb...)
					exp = append(exp, append(be(int64(len(k))), k...)...)
					if m.BK == "bad" {
						bad = true
					}
				} else {
					one(m, "nil")
				}
				if o.Bad == j+1 {
					bad = true
					switch o.BK {
					case "idtype":
						args = append(args, fmt.Sprint(m.ID), srcOf(m))
					case "idnil":
						args = append(args, float64(m.ID), srcOf(m))
					case "odd":
						args = append(args, m.ID)
					default:
						args = append(args, m.ID, make(chan int))
					}
				} else {
					args = append(args, m.ID, srcOf(m))
				}
			}
			e = tcpx.PipeJSON(c, args...)
		case "TCPCallOnceJSON":
			m := &o.Msgs[0]
			one(m, "nil")
			if o.Bad == 0 {
				lis, e = vnet.Listen("tcp", "127.0.0.1:7001")
				if e != nil {
					panic("harness: " + e.Error())
				}
			} else {
				bad = true
			}
			e = tcpx.TCPCallOnceJSON("tcp", "127.0.0.1:7001", m.ID, srcOf(m))
		case "WriteConn":
			c.cuts = o.Cuts
			m := &o.Msgs[0]
			one(m, m.HK)
			buf := append([]byte{}, exp...)
			e = tcpx.WriteConn(buf, c)
			if !bytes.Equal(buf, exp) {
				panic("WriteConn changed its argument")
			}
		default:
			panic("harness: unknown function " + o.Fn)
		}
	})
	wrote = c.w
	if o.Fn == "TCPCallOnceJSON" {
		w := vnet.W
		if n := len(w.Dialed); n > 0 && o.Bad == 0 {
			sv, ae := lis.Accept()
			if ae == nil {
				buf := make([]byte, 1<<20)
				for {
					n, re := sv.Read(buf)
					wrote = append(wrote, buf[:n]...)
					if re != nil {
						closed = re == io.EOF
						break
					}
					if n == 0 {
						break
					}
				}
				sv.Close()
			}
			w.Dialed = nil
		}
		if lis != nil {
			lis.Close()
		}
	}
	d.log(Ev{"e": "help", "i": i, "fn": o.Fn, "bad": bad, "exp": rle(exp), "wrote": rle(wrote), "ok": e == nil && pan == "", "pan": pan != "", "closed": closed, "msg": pan, "failed": c.failed})
}

func runCodec(t *testing.T, s *CScn, ready func()) CTrace {
	ready()
	d := &cd{}
	synctest.Test(t, func(t *testing.T) {
		t0 := time.Now()
		d.now = func() int64 { return time.Since(t0).Microseconds() }
		vnet.W = vnet.NewWorld()
		defer func() { vnet.W = nil; vrt.Hook = nil }()
		if s.Y > 0 {
			rng := mrand.New(mrand.NewSource(int64(s.Seed)*7 + int64(s.ID)))
			var mu sync.Mutex
			vrt.Hook = func(site int) {
				mu.Lock()
				r := rng.Intn(1 << 16)
				mu.Unlock()
				if r%s.Y == 0 {
					time.Sleep(time.Duration(r%2000 + 1))
				}
			}
		}
		one := func(i int) {
			o := &s.Ops[i]
			switch o.Op {
			case "pack":
				d.pack(i+1, o, s.Seed+i)
			case "bytes":
				d.acc(i+1, o.bytes(s.Seed+i), o.Mar, nil, false)
			case "read":
				d.read(i+1, o, s.Seed+i)
			case "help":
				d.help(i+1, o, s.Seed+i)
			}
		}
		if s.Par {
			var wg sync.WaitGroup
			for i := range s.Ops {
				wg.Add(1)
				go func() { defer wg.Done(); one(i) }()
			}
			wg.Wait()
		} else {
			for i := range s.Ops {
				one(i)
			}
		}
		vrt.Hook = nil
		for _, o := range d.outs {
			d.log(Ev{"e": "still", "i": o.i, "ok": bytes.Equal(o.b, o.copy)})
		}
	})
	return CTrace{s, d.ev}
}

func TestCodec(t *testing.T) {
	drive(t, func(t *testing.T, line []byte, ready, done func(interface{})) {
		var s CScn
		if e := json.Unmarshal(line, &s); e != nil {
			t.Fatalf("bad scenario: %v: %s", e, line)
		}
		done(runCodec(t, &s, func() { ready(&s) }))
	})
}
