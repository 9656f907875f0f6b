package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"
	"unsafe"

	"github.com/moggle-mog/goav/amf"
	"github.com/moggle-mog/goav/packet"
)

// hx renders bytes for messages.
func hx(b []byte) string {
	if len(b) > 96 {
		return fmt.Sprintf("%s...(%d bytes)", hex.EncodeToString(b[:96]), len(b))
	}
	return hex.EncodeToString(b)
}

func qs(s string) string {
	if len(s) > 80 {
		return fmt.Sprintf("%q...(%d bytes)", s[:80], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// try runs f and turns a panic into an error text.
func try(f func()) (p interface{}) {
	defer func() {
		if r := recover(); r != nil {
			if v, ok := r.(violation); ok {
				panic(v)
			}
			p = r
		}
	}()
	f()
	return nil
}

// chunkReader delivers data in the given read sizes (then the rest at once).
// zero: return an empty read before each chunk; eofWith: return the last bytes
// together with io.EOF; fail: instead of EOF return this error.
type chunkReader struct {
	data    []byte
	sizes   []int
	pos, i  int
	left    int // bytes left in the current chunk
	zero    bool
	zeroNow bool
	stall   int // further empty reads before each chunk
	stalled int
	eofWith bool
	fail    error
}

func (r *chunkReader) end() error {
	if r.fail != nil {
		return r.fail
	}
	return io.EOF
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.pos >= len(r.data) {
		return 0, r.end()
	}
	if r.left == 0 {
		if r.zero && !r.zeroNow {
			if r.stalled++; r.stalled > r.stall {
				r.stalled, r.zeroNow = 0, true
			}
			return 0, nil
		}
		r.zeroNow = false
		if r.i < len(r.sizes) {
			r.left = r.sizes[r.i]
			r.i++
		} else {
			r.left = len(r.data) - r.pos
		}
	}
	n := len(p)
	if n > r.left {
		n = r.left
	}
	if n > len(r.data)-r.pos {
		n = len(r.data) - r.pos
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	r.left -= n
	if r.eofWith && r.pos == len(r.data) {
		return n, r.end()
	}
	return n, nil
}

var errInjected = errors.New("injected failure")

// faultWriter fails write call number failCall (0-based; -1 never) after
// accepting `partial` of its bytes, or the write that crosses byte offset
// failByte (-1 never). once: only that call fails.
type faultWriter struct {
	buf      bytes.Buffer
	calls    int
	failCall int
	failByte int
	once     bool
	failed   bool
	late     int // bytes accepted after the failure
}

func (w *faultWriter) Write(p []byte) (int, error) {
	k := w.calls
	w.calls++
	if w.failed && !w.once {
		return 0, errInjected
	}
	if w.failed {
		w.late += len(p)
		return len(p), nil
	}
	if k == w.failCall {
		w.failed = true
		return 0, errInjected
	}
	if w.failByte >= 0 && w.buf.Len()+len(p) > w.failByte {
		n := w.failByte - w.buf.Len()
		w.buf.Write(p[:n])
		w.failed = true
		return n, errInjected
	}
	w.buf.Write(p)
	return len(p), nil
}

// ---- canonical rendering of decoded AMF values ----

func fnum(f float64) string {
	if math.IsNaN(f) {
		return "nNaN"
	}
	return fmt.Sprintf("n%x", math.Float64bits(f))
}

// ecmaParts reads the dense and associative parts of a decoded AMF3 array.
func ecmaParts(v amf.EcmaArrayAMF3) (dense []interface{}, assoc map[string]interface{}) {
	rv := reflect.New(reflect.TypeOf(v)).Elem()
	rv.Set(reflect.ValueOf(v))
	for i := 0; i < rv.NumField(); i++ {
		f := rv.Field(i)
		f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
		switch f.Kind() {
		case reflect.Slice:
			for k := 0; k < f.Len(); k++ {
				dense = append(dense, f.Index(k).Interface())
			}
		case reflect.Map:
			assoc = map[string]interface{}{}
			it := f.MapRange()
			for it.Next() {
				assoc[it.Key().String()] = it.Value().Interface()
			}
		}
	}
	return
}

// canon renders a decoded value. Every number is rendered by value when
// numeric is set, otherwise only float64 is a number.
func canon(v interface{}, numeric bool) string {
	var sb strings.Builder
	canonTo(&sb, v, numeric, 0)
	return sb.String()
}

func canonMap(sb *strings.Builder, m map[string]interface{}, numeric bool, d int) {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	sb.WriteByte('{')
	for _, k := range ks {
		fmt.Fprintf(sb, "%d:", len(k))
		sb.WriteString(k)
		sb.WriteByte('=')
		canonTo(sb, m[k], numeric, d+1)
		sb.WriteByte(',')
	}
	sb.WriteByte('}')
}

func canonTo(sb *strings.Builder, v interface{}, numeric bool, d int) {
	if d > 1500 {
		sb.WriteString("<deep>")
		return
	}
	switch x := v.(type) {
	case nil:
		sb.WriteString("null")
	case bool:
		fmt.Fprintf(sb, "%v", x)
	case float64:
		sb.WriteString(fnum(x))
	case string:
		fmt.Fprintf(sb, "s%d:", len(x))
		sb.WriteString(x)
	case []byte:
		fmt.Fprintf(sb, "b%d:", len(x))
		sb.Write(x)
	case time.Time:
		fmt.Fprintf(sb, "t%d", x.UnixMilli())
		if ns := x.Nanosecond() % 1e6; ns != 0 {
			fmt.Fprintf(sb, "+%dns", ns)
		}
	case amf.Array:
		sb.WriteByte('[')
		for _, e := range x {
			canonTo(sb, e, numeric, d+1)
			sb.WriteByte(',')
		}
		sb.WriteByte(']')
	case amf.Object:
		canonMap(sb, x, numeric, d)
	case amf.TypedObject:
		fmt.Fprintf(sb, "T%d:%s", len(x.Type), x.Type)
		canonMap(sb, x.Object, numeric, d)
	case amf.EcmaArrayAMF3:
		dense, assoc := ecmaParts(x)
		sb.WriteByte('[')
		for _, e := range dense {
			canonTo(sb, e, numeric, d+1)
			sb.WriteByte(',')
		}
		sb.WriteByte(']')
		if len(assoc) > 0 {
			canonMap(sb, assoc, numeric, d)
		}
	default:
		rv := reflect.ValueOf(v)
		if numeric {
			switch rv.Kind() {
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				sb.WriteString(fnum(float64(rv.Int())))
				return
			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
				sb.WriteString(fnum(float64(rv.Uint())))
				return
			case reflect.Float32:
				sb.WriteString(fnum(rv.Float()))
				return
			}
		}
		fmt.Fprintf(sb, "<%T %v>", v, v)
	}
}

// rep returns a deterministic string of n bytes.
func rep(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i*7%26)
	}
	return string(b)
}

func repBytes(n int, salt int) []byte {
	b := make([]byte, n)
	x := uint32(salt)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

func eqStr(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func floatCase(i int) float64 {
	m := []uint64{0, 1, 1 << 51, 1<<52 - 1, 0x5555555555555, 0xAAAAAAAAAAAAA, 1 << 31, 0xFF00FF00FF00F}
	return math.Float64frombits(uint64(i&1)<<63 | uint64(i>>1&2047)<<52 | m[i>>12&7])
}

// timeCase: seconds at and around powers of two below 2^45, both signs.
func timeCase(i int) int64 {
	s := int64(1)<<(uint(i/10)) + int64(i/2%5) - 2
	if i&1 == 1 {
		return -s
	}
	return s
}

// timeVal: timeCase in seconds below 2^p, in milliseconds below 2^50, then
// every fraction of five seconds.
func timeVal(i, p int) time.Time {
	if i < p*10 {
		return utc(timeCase(i))
	}
	if i -= p * 10; i < 500 {
		return ms(timeCase(i))
	}
	i -= 500
	return ms([]int64{0, -1, 1600000000, -62135596800, 253402300799}[i/1000]*1000 + int64(i%1000))
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// twoBytes is content number i of the 256*257 strings of one or two bytes.
func twoBytes(i int) string {
	if i < 256 {
		return string([]byte{byte(i)})
	}
	i -= 256
	return string([]byte{byte(i >> 8), byte(i)})
}

const twoBytesN = 256 * 257

// longContent is one of the 256*4+8 contents of n bytes in which a chosen byte
// is the first, a middle one, the last or all of them, or a multi-byte pattern repeats.
func longContent(i, n int) string {
	b := []byte(rep(n))
	if i < 256*4 {
		v := byte(i >> 2)
		switch i & 3 {
		case 0:
			b[0] = v
		case 1:
			b[n/2] = v
		case 2:
			b[n-1] = v
		default:
			for k := range b {
				b[k] = v
			}
		}
		return string(b)
	}
	pat := []string{"\u00e9", "\u6f22", "\U0001f600", "\xff\xfe", "\x00\x00\x09", "\ufeff", " \t\r\n", "a\u0301"}[i-256*4]
	return strings.Repeat(pat, n/len(pat)+1)[:n]
}

const longContentN = 256*4 + 8

// nameFills are contents for descriptor names: not only ASCII letters.
var nameFills = []string{"é", "直播", "\U0001F600", "\xff", "\x80\xe2\x82", "\x00", " ", "\x05\x10\x00", "\x40\x48\x03", "a\u0301b"}

// fillName is exactly n bytes of the repeated content (possibly cut inside a character).
func fillName(fill string, n int) string {
	s := fill
	for len(s) < n {
		s += fill
	}
	return s[:n]
}

// vary gives a packet other fields than its type and data (stream id,
// baseline, and the time where none is set): they are for the program that
// uses the library, no operation may depend on them.
func vary(p *packet.Packet, i int) *packet.Packet {
	h := i*7 + len(p.Data)*13
	for k := 0; k < len(p.Data) && k < 8; k++ {
		h += int(p.Data[k])
	}
	p.StreamID = []uint32{0, 1, 7}[h%3]
	p.Baseline = []uint32{0, 40, 5000000, 0xffffffff}[h/3%4]
	if p.TimeStamp == 0 {
		p.TimeStamp = []uint32{0, 77, 3000000, 0xfffffff0}[h/12%4]
	}
	return p
}

func pkt(pt int, data []byte) *packet.Packet {
	return vary(&packet.Packet{Type: pt, Data: data}, 0)
}

// words are texts that mean something to some program around media streams;
// to the library they are texts like any other.
var words = func() (l []string) {
	for _, t := range strings.Fields(`onMetaData onCuePoint onTextData onStatus onFI onXMPData onCaptionInfo onPlayStatus @setDataFrame @clearDataFrame |RtmpSampleAccess
		duration width height length filesize framerate fps videodatarate audiodatarate audiosamplerate audiosamplesize audiochannels stereo videocodecid audiocodecid avcprofile avclevel
		encoder creationdate metadatacreator lasttimestamp hasKeyframes keyframes times filepositions canSeekToEnd Server title Provider Service major_brand
		type name class Type Object Array Date XML Function __proto__ constructor prototype _remoteClass explicitType externalizable timeStamp
		connect createStream publish play _result _error app flashVer swfUrl tcUrl objectEncoding capabilities code level description NetConnection.Connect.Success
		body clientId destination headers messageId timestamp timeToLive clientIdBytes messageIdBytes correlationId correlationIdBytes operation source
		DSA DSK DSC flex.messaging.io.ArrayCollection flex.messaging.io.ObjectProxy flex.messaging.messages.AcknowledgeMessage flex.messaging.messages.CommandMessage flash.utils.ByteArray java.util.HashMap
		true false null undefined NaN Infinity 0 1 -1 3.5 010 0x10 1e9 2020-01-02T03:04:05Z yes no`) {
		l = append(l, t)
	}
	for _, t := range append([]string{}, l...) {
		if len(t) > 2 {
			l = append(l, strings.ToUpper(t), strings.ToLower(t), t+" ", t[:len(t)-1], t+"s")
		}
	}
	return
}()

// wordValues are values that stand behind such names.
func wordValues(w string) []aval {
	in := mkObj([]string{w, "~"}, []aval{mkStr(w), mkNum(1, 1)})
	return []aval{mkStr(w), mkStr("x"), mkNum(-1.5, -1.5), mkNum(7, 7), {true, "true", "true", "true"}, {nil, "null", "null", "nil"}, mkTime(utc(1600000000)), in, mkArray([]aval{mkStr(w), mkNum(0, 0)})}
}

// cyclic runs n steps over nops operations in turn, each held for 1, 7 or 1000
// steps: the long histories that bounded exploration of short ones leaves out.
func cyclic(name, what string, n, nops int, start func(c *Ctx) func(op, step int)) *Scenario {
	hold := []int{1, 7, 1000}
	return chunked(name, fmt.Sprintf("histories of %d %s, %d kinds in turn, each 1, 7 or 1000 times in a row, on one object", n, what, nops), len(hold), 1, func(c *Ctx, i int) {
		f := start(c)
		for k := 0; k < n; k++ {
			f(k/hold[i]%nops, k)
		}
		c.Step(n)
		c.Eval(n)
		c.Outcome(i)
	})
}
