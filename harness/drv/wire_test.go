package drv

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/BurntSushi/toml"
	"github.com/fwhezfwhez/tcpx"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"gopkg.in/yaml.v2"
)

// The harness encodes and decodes blocks itself, from the documented layout only, so that it shares no code
// with the implementation under test.

type Body struct {
	XMLName struct{} `json:"-" yaml:"-" toml:"-" xml:"body"`
	T       string   `json:"t" yaml:"t" toml:"t" xml:"t"`
	P       string   `json:"p" yaml:"p" toml:"p" xml:"p"`
}

func be(n int64) []byte {
	var b [4]byte
	binary.BigEndian.PutUint32(b[:], uint32(n))
	return b[:]
}

func encBody(mar, t, p string) []byte {
	v := Body{T: t, P: p}
	var b []byte
	var e error
	switch mar {
	case "json", "":
		b, e = json.Marshal(v)
	case "xml":
		b, e = xml.Marshal(v)
	case "yaml":
		b, e = yaml.Marshal(v)
	case "toml":
		var buf bytes.Buffer
		e = toml.NewEncoder(&buf).Encode(v)
		b = buf.Bytes()
	case "protobuf":
		b, e = proto.Marshal(&wrapperspb.StringValue{Value: t + "|" + p})
	}
	if e != nil {
		panic(e)
	}
	return b
}

func decBody(mar string, b []byte) (t, p string, ok bool) {
	var v Body
	var e error
	switch mar {
	case "json", "":
		e = json.Unmarshal(b, &v)
	case "xml":
		e = xml.Unmarshal(b, &v)
	case "yaml":
		e = yaml.Unmarshal(b, &v)
	case "toml":
		e = toml.Unmarshal(b, &v)
	case "protobuf":
		var s wrapperspb.StringValue
		e = proto.Unmarshal(b, &s)
		if i := strings.IndexByte(s.GetValue(), '|'); i >= 0 {
			v.T, v.P = s.GetValue()[:i], s.GetValue()[i+1:]
		}
	}
	return v.T, v.P, e == nil
}

func srcBody(mar, t, p string) interface{} {
	if mar == "protobuf" {
		return &wrapperspb.StringValue{Value: t + "|" + p}
	}
	return Body{T: t, P: p}
}

func dstBody(mar string) interface{} {
	if mar == "protobuf" {
		return &wrapperspb.StringValue{}
	}
	return &Body{}
}

func gotBody(mar string, v interface{}) (t, p string) {
	if mar == "protobuf" {
		s := v.(*wrapperspb.StringValue).GetValue()
		if i := strings.IndexByte(s, '|'); i >= 0 {
			return s[:i], s[i+1:]
		}
		return "", ""
	}
	b := v.(*Body)
	return b.T, b.P
}

func marshallerOf(mar string) tcpx.Marshaller {
	switch mar {
	case "json":
		return tcpx.JsonMarshaller{}
	case "xml":
		return tcpx.XmlMarshaller{}
	case "yaml":
		return tcpx.YamlMarshaller{}
	case "toml":
		return tcpx.TomlMarshaller{}
	case "protobuf":
		return tcpx.ProtobufMarshaller{}
	}
	return nil
}

// pad makes n printable bytes that differ from message to message.
func pad(seed, n int) string {
	const al = "abcdefghijklmnopqrstuvwxyz0123456789"
	b := make([]byte, n)
	x := uint32(seed*2654435761 + 12345)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = al[(x>>16)%uint32(len(al))]
	}
	return string(b)
}

const pipeKey = "[tcpx-buffer-in-serial]"

// block renders a unit to bytes and fills in Size, Decl and HK, the facts the specification needs.
func (u *Unit) block(mar, tag string, seed int) []byte {
	hdr := map[string]interface{}{}
	switch u.RT {
	case "id":
		hdr["Router-Type"] = "MESSAGE_ID"
		hdr["Router-Pattern-Value"] = u.ID
	case "url":
		hdr["Router-Type"] = "URL_PATTERN"
		hdr["Router-Pattern-Value"] = u.U
	case "other":
		hdr["Router-Type"] = "SOMETHING"
		hdr["Router-Pattern-Value"] = u.U
	case "num":
		hdr["Router-Type"] = 5
		hdr["Router-Pattern-Value"] = u.U
	case "val": // a pattern, but no routing type
		hdr["Router-Pattern-Value"] = u.U
	case "idu": // routed by id, whatever pattern it has
		hdr["Router-Type"] = "MESSAGE_ID"
		hdr["Router-Pattern-Value"] = u.U
	case "urlnum":
		hdr["Router-Type"] = "URL_PATTERN"
		hdr["Router-Pattern-Value"] = 77
	case "extra":
		hdr["k"+strconv.Itoa(seed%7)] = []int{1, 2, seed}
		hdr["url_pattern"] = "/zzz"
		hdr["router_type"] = "URL_PATTERN"
	}
	switch u.Mal {
	case "pipe0":
		hdr[pipeKey] = "enable;0"
	case "pipen":
		hdr[pipeKey] = "enable;-3"
	case "pipex":
		hdr[pipeKey] = "enable"
	case "pipet":
		hdr[pipeKey] = 7
	case "pipea":
		hdr[pipeKey] = "enable;abc"
	case "pipeoff":
		hdr[pipeKey] = "disable;3"
	}
	if u.Pipe > 0 {
		hdr[pipeKey] = fmt.Sprintf("enable;%d", u.Pipe)
	}
	hb, _ := json.Marshal(hdr)
	if u.RT == "nil" && len(hdr) == 0 {
		hb = []byte("null")
	}
	if u.RT == "hl0" && len(hdr) == 0 {
		hb = nil
	}
	u.HK = "ok"
	switch u.Mal {
	case "json":
		hb, u.HK = []byte("{bad"), "bad"
	case "jarr":
		hb, u.HK = []byte("[1,2]"), "bad"
	case "pipe0", "pipen", "pipex", "pipet", "pipea", "hneg", "hbig", "short", "neg":
		u.HK = "bad"
	case "junk", "bneg", "bbig":
		u.HK = "unk"
	}
	var bb []byte
	if u.BL >= 0 {
		bb = encBody(mar, tag, pad(seed, u.BL))
	}
	if u.Mal == "stuff" { // what PackStuff sends: no header map, no body
		hb, bb = []byte("null"+strings.Repeat(" ", u.dup)), nil
	}
	hl, bl := int64(len(hb)), int64(len(bb))
	switch u.Mal {
	case "hneg":
		hl = 0xFFFFFFF0
	case "hbig":
		hl += 1000000
	case "bneg":
		bl = 0xFFFFFFFF
	case "bbig":
		bl += 7
	}
	c := append(append(append(append(be(int64(u.ID)), be(hl)...), be(bl)...), hb...), bb...)
	decl := int64(len(c))
	switch u.Mal {
	case "short":
		n := (u.ID%12 + 12) % 12
		c = c[:n]
		decl = int64(n)
	case "neg":
		decl = 0x80000000 + decl
	case "trunc":
		decl += 1000
	case "junk":
		n := u.BL
		c = []byte(pad(seed, n))
		for i := range c {
			c[i] ^= byte(seed*31 + i*i*7)
		}
		decl = int64(n)
	}
	b := append(be(decl), c...)
	u.Size = len(b)
	u.Decl = int(int32(uint32(decl)))
	return b
}

type frame struct {
	id       int32
	hdr      map[string]interface{}
	hdrBytes []byte
	body     []byte
	size     int
}

// parseFrame takes one block off b; n=0 when incomplete, n<0 when malformed.
func parseFrame(b []byte) (f frame, n int) {
	if len(b) < 4 {
		return f, 0
	}
	l := int(binary.BigEndian.Uint32(b))
	if l < 12 || l > 1<<28 {
		return f, -1
	}
	if len(b) < 4+l {
		return f, 0
	}
	hl, bl := int(binary.BigEndian.Uint32(b[8:])), int(binary.BigEndian.Uint32(b[12:]))
	if hl < 0 || bl < 0 || 12+hl+bl != l {
		return f, -1
	}
	f.id = int32(binary.BigEndian.Uint32(b[4:]))
	f.hdrBytes = b[16 : 16+hl]
	f.body = b[16+hl : 16+hl+bl]
	f.size = 4 + l
	if hl > 0 {
		if json.Unmarshal(f.hdrBytes, &f.hdr) != nil {
			return f, -1
		}
	}
	return f, 4 + l
}

var tagRe = regexp.MustCompile(`T(\d+)E`)

func tagOf(b []byte) int {
	m := tagRe.FindSubmatch(b)
	if m == nil {
		return 0
	}
	n, _ := strconv.Atoi(string(m[1]))
	return n
}
