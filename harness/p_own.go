package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"sort"

	"github.com/moggle-mog/goav/amf"
	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/container/ts"
	"github.com/moggle-mog/goav/packet"
	"github.com/moggle-mog/goav/parser"
	"github.com/moggle-mog/goav/parser/aac"
	"github.com/moggle-mog/goav/parser/h264"
	"github.com/moggle-mog/goav/sips"
)

// arena hands out buffers for the caller's data. A fresh arena gives every
// datum its own memory; a reusing one places everything in the same memory and
// overwrites it as soon as the operation has returned, like a server's read
// buffer.
type arena struct {
	reuse bool
	buf   []byte
}

func (a *arena) in(b []byte) []byte {
	if !a.reuse {
		return append([]byte{}, b...)
	}
	if len(a.buf) < len(b)+64 {
		a.buf = make([]byte, len(b)*2+4096)
	}
	copy(a.buf, b)
	return a.buf[:len(b)]
}

func (a *arena) done() {
	if a.reuse {
		for i := range a.buf {
			a.buf[i] ^= 0xa5
		}
	}
}

func (a *arena) object(o amf.Object) amf.Object {
	c := amf.Object{}
	for k, v := range o {
		c[k] = v
	}
	return c
}

func (a *arena) drop(o amf.Object) {
	if a.reuse {
		for k := range o {
			delete(o, k)
		}
		o["overwritten"] = true
	}
}

// ownOps: operations of a streaming session; each appends what it can observe.
type ownRun struct {
	a                    *arena
	out                  bytes.Buffer // everything observed
	flvOut, tsOut        bytes.Buffer
	flv                  *flv.Mixer
	ts                   *ts.Mixer
	cp                   *parser.CodecParser
	h264                 *h264.Parser
	aac                  *aac.Parser
	dmx                  *flv.Demuxer
	seenFlv, seenTs, cnt int
}

func newOwnRun(reuse bool) *ownRun {
	r := &ownRun{a: &arena{reuse: reuse}, cp: parser.NewCodecParser(), h264: h264.NewParser(), aac: aac.NewParser(), dmx: flv.NewDemuxer()}
	r.flv, r.ts = flv.NewMixer(&r.flvOut), ts.NewMixer(&r.tsOut)
	return r
}

func (r *ownRun) packet(pt int, data []byte) *packet.Packet {
	p := pkt(pt, r.a.in(data))
	if pt != packet.PktMetadata {
		_ = r.dmx.Demux(p)
	}
	return p
}

func (r *ownRun) note(what string, err error) {
	fmt.Fprintf(&r.out, "%s refused %v flv %x ts %x\n", what, err != nil, r.flvOut.Bytes()[r.seenFlv:], r.tsOut.Bytes()[r.seenTs:])
	r.seenFlv, r.seenTs = r.flvOut.Len(), r.tsOut.Len()
}

var ownOps = func() []struct {
	name string
	f    func(r *ownRun)
} {
	type op = struct {
		name string
		f    func(r *ownRun)
	}
	var l []op
	add := func(name string, f func(r *ownRun) error) {
		l = append(l, op{name, func(r *ownRun) {
			err := f(r)
			r.a.done()
			r.note(name, err)
		}})
	}
	for i, set := range [][2][]byte{{{0x67, 0x4d, 1, 2}, {0x68, 0xee, 3}}, {{0x67, 0x42, 9}, {0x68, 7, 7, 7}}} {
		vh := vidData(true, true, 0, avcc(set[0], set[1]))
		ah := aacHeaderBytes(3 + i)
		md := amf.Object{"width": 100 + i}
		sv := amf.Object{"Provider": fmt.Sprintf("p%d", i), "Service": "s"}
		add(fmt.Sprintf("save video header %d", i), func(r *ownRun) error {
			p := r.packet(packet.PktVideo, vh)
			e := r.flv.SaveAVCHeader(p)
			if e == nil {
				e = r.ts.SaveAVCHeader(p)
			}
			if e == nil {
				e = r.cp.Parse(p, io.Discard)
			}
			if e == nil {
				e = r.h264.Parse(p.Data[5:], true, io.Discard)
			}
			return e
		})
		add(fmt.Sprintf("save audio header %d", i), func(r *ownRun) error {
			p := r.packet(packet.PktAudio, ah)
			e := r.flv.SaveAACHeader(p)
			if e == nil {
				e = r.ts.SaveAACHeader(p)
			}
			if e == nil {
				e = r.cp.Parse(p, io.Discard)
			}
			if e == nil {
				e = r.aac.Parse(p.Data[2:], flv.AacSeqHdr, io.Discard)
			}
			return e
		})
		add(fmt.Sprintf("save metadata %d", i), func(r *ownRun) error {
			o, q := r.a.object(md), r.a.object(sv)
			e := r.flv.SaveMetadata(o)
			if e == nil {
				e = r.ts.SaveMetadata(q)
			}
			r.a.drop(o)
			r.a.drop(q)
			return e
		})
	}
	add("write headers", func(r *ownRun) error {
		e := r.flv.SetFlvHeader()
		if e == nil {
			e = r.ts.SetTsHeader()
		}
		return e
	})
	send := func(name string, pt int, data []byte) {
		add(name, func(r *ownRun) error {
			p := r.packet(pt, data)
			r.cnt++
			e := r.flv.Mux(p, uint32(r.cnt))
			if pt == packet.PktMetadata {
				return e
			}
			e1 := r.ts.Update(p, uint32(r.cnt*20), 0)
			if e1 == nil {
				e1 = r.ts.Mux(p)
			}
			fmt.Fprintf(&r.out, "ts refused %v ", e1 != nil)
			p = r.packet(pt, data)
			var b bytes.Buffer
			e2 := r.cp.Parse(p, &b)
			fmt.Fprintf(&r.out, "parser refused %v %x ", e2 != nil, b.Bytes())
			b.Reset()
			if pt == packet.PktVideo {
				e2 = r.h264.Parse(r.a.in(data[5:]), false, &b)
			} else {
				e2 = r.aac.Parse(r.a.in(data[2:]), flv.AacRaw, &b)
			}
			fmt.Fprintf(&r.out, "refused %v %x ", e2 != nil, b.Bytes())
			return e
		})
	}
	send("key frame", packet.PktVideo, vidData(true, false, 0, nal(0x65, 1, 2, 3)))
	send("key frame with own parameter sets", packet.PktVideo, vidData(true, false, 0, cat(nal(0x67, 5), nal(0x68, 6), nal(0x65, 7))))
	send("inter frame", packet.PktVideo, vidData(false, false, 0, nal(0x41, 4)))
	send("AAC frame", packet.PktAudio, []byte{0xaf, 1, 0x21, 0x10})
	send("metadata packet", packet.PktMetadata, cat(b0str("@setDataFrame"), b0str("onMetaData"), []byte{3, 0, 0, 9}))
	return l
}()

func sipShow(s *sips.SIP) string {
	var b bytes.Buffer
	fmt.Fprintf(&b, "%v %v %v %q %v %q|", s.IsResponse, s.Version, s.Method, s.ResponseStatus, s.ResponseCode, s.Payload())
	if s.Request != nil {
		fmt.Fprintf(&b, "%v|", reqParts(s.Request))
	}
	all := s.Headers.GetAllHeaders()
	var ks []string
	for k := range all {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "%q=%q|", k, all[k])
	}
	return b.String()
}

func init() {
	register(&Prop{
		ID: "N02", Level: "model_checking",
		Rule:        "Every history of operations within the bounds is executed twice on real objects: once with every datum in its own memory, and once with all data passed through one buffer (and one metadata object) that is overwritten as soon as each operation returns. Everything observable - refusals, bytes written, decoded values rendered at the end - must be identical. A state is the observation so far.",
		Assumptions: []string{"Packets held by the GOP cache and bodies given to SetBody, MakeRequest and MakeResponse are handed over to the library; a packet's Media refers to the caller's Data or the mixer's buffer by design"},
		Build: func(th bool) []*Scenario {
			d := pick(5, 6)
			ss := []*Scenario{{Name: "sessions", Note: fmt.Sprintf("every history of %d of %d operations on FLV mixer, TS mixer, codec parser and the H.264 and AAC parsers", d, len(ownOps)), Run: func(c *Ctx) {
				x, y := newOwnRun(false), newOwnRun(true)
				for i := 0; i < d; i++ {
					o := ownOps[c.Choose(len(ownOps))]
					o.f(x)
					o.f(y)
					c.Logf("%s", o.name)
					if !bytes.Equal(x.out.Bytes(), y.out.Bytes()) {
						c.Fail("step %d, %s: with reused buffers %s, with separate ones %s", i, o.name, lastLine(y.out.Bytes()), lastLine(x.out.Bytes()))
					}
					c.Step(1)
					c.State(x.out.Bytes())
				}
				c.Eval(d)
				c.Outcome(x.out.Bytes())
			}}}
			msgs := corpus()
			pair := func(c *Ctx, m1, m2 amfMsg) {
				a := &arena{reuse: true}
				dec := newDec(m1.amf3)
				take := func(b []byte) (vs []interface{}) {
					r := bytes.NewReader(a.in(b))
					for {
						v, err := dec.Decode(r)
						if err != nil {
							return
						}
						vs = append(vs, v)
					}
				}
				v1 := take(m1.data)
				s1 := canon(v1, false)
				a.done()
				v2 := take(m2.data)
				s2 := canon(v2, false)
				a.done()
				c.Check(canon(v1, false) == s1, "values of %s changed to %s after decoding %s, were %s", hx(m1.data), clip(canon(v1, false), 300), hx(m2.data), clip(s1, 300))
				c.Check(canon(v2, false) == s2, "values of %s changed after their bytes were overwritten", hx(m2.data))
				c.Step(2)
				c.Eval(1)
			}
			ss = append(ss, &Scenario{Name: "decoded-values", Note: fmt.Sprintf("every pair of %d AMF messages decoded by one decoder: the values of the first, after its bytes are overwritten and the second is decoded", len(msgs)), Run: func(c *Ctx) {
				m1 := msgs[c.Choose(len(msgs))]
				for _, m2 := range msgs {
					if m1.amf3 != m2.amf3 {
						continue
					}
					pair(c, m1, m2)
				}
				c.Outcome(hx(m1.data), m1.amf3)
			}})
			var large []amfMsg
			for _, n := range []int{300, 4096, 5000, 20000, 70000, 1 << 20} {
				for k := 0; k < 2; k++ {
					b := repBytes(n, k)
					s := bytes.Repeat([]byte{byte('a' + k)}, n)
					large = append(large, amfMsg{amf3: true, data: cat([]byte{12}, u29(uint32(n<<1|1)), b)}, amfMsg{amf3: true, data: cat([]byte{6}, u29(uint32(n<<1|1)), s)}, amfMsg{amf3: true, data: cat([]byte{11}, u29(uint32(n<<1|1)), s)},
						amfMsg{amf3: true, data: cat([]byte{9, 3, 1, 12}, u29(uint32(n<<1|1)), b)},
						amfMsg{data: b0long(string(s))}, amfMsg{data: cat([]byte{15}, be32(n), s)}, amfMsg{data: cat([]byte{10}, be32(1), b0long(string(s)))})
				}
			}
			ss = append(ss, &Scenario{Name: "large-values", Note: fmt.Sprintf("the same for every pair of %d byte arrays, strings and documents of 300 bytes to 1 MB, alone and inside arrays", len(large)), Run: func(c *Ctx) {
				m1 := large[c.Choose(len(large))]
				for _, m2 := range large {
					if m1.amf3 == m2.amf3 && len(m1.data)+len(m2.data) <= 1<<20+80000 {
						pair(c, m1, m2)
					}
				}
				c.Outcome(len(m1.data), hx(m1.data[:8]), m1.amf3)
			}})
			heads := []struct {
				pt   int
				data []byte
			}{
				{packet.PktVideo, vidData(true, true, 0, []byte{1, 2})}, {packet.PktVideo, vidData(true, false, 40, []byte{3})}, {packet.PktVideo, vidData(false, false, -40, []byte{4, 5, 6})}, {packet.PktVideo, []byte{0x57, 0, 0, 0, 0, 7}},
				{packet.PktAudio, []byte{0xaf, 0, 0x12, 0x10}}, {packet.PktAudio, []byte{0xaf, 1, 8}}, {packet.PktAudio, []byte{0x2f, 0xff}}, {packet.PktMetadata, []byte{2, 0, 0}}, {packet.PktVideo, []byte{0x17}}, {packet.PktAudio, []byte{0x1f, 1}},
			}
			ss = append(ss, &Scenario{Name: "packet-headers", Note: fmt.Sprintf("every sequence of %d of %d packets through one demuxer: the header of each packet as first decoded and after all the others, and as a fresh demuxer decodes it", pick(4, 5), len(heads)), Run: func(c *Ctx) {
				d := flv.NewDemuxer()
				var ps []*packet.Packet
				var shown []string
				show := func(p *packet.Packet) string {
					t, is := p.Header.(interface {
						packet.VideoPacketHeader
						packet.AudioPacketHeader
					})
					if !is {
						return fmt.Sprintf("no header %x", p.Media)
					}
					return fmt.Sprint(t.IsKeyFrame(), t.IsInterFrame(), t.IsSeqHdr(), t.IsEndOfSeq(), t.IsCodecAvc(), t.CodecID(), t.CompositionTime(), t.SoundFormat(), t.AACType(), t.IsSoundAAC(), t.IsSoundMP3(), t.IsAACSeqHdr(), hx(p.Media))
				}
				for i := 0; i < pick(4, 5); i++ {
					h := heads[c.Choose(len(heads))]
					p := pkt(h.pt, append([]byte{}, h.data...))
					q := pkt(h.pt, append([]byte{}, h.data...))
					e1, e2 := d.Demux(p), flv.NewDemuxer().Demux(q)
					c.Check((e1 == nil) == (e2 == nil), "packet %d %s: error %v, by a fresh demuxer %v", i, hx(h.data), e1, e2)
					if e1 != nil {
						continue
					}
					c.Check(show(p) == show(q), "packet %d %s: header %s, by a fresh demuxer %s", i, hx(h.data), show(p), show(q))
					ps, shown = append(ps, p), append(shown, show(p))
					for k, p := range ps {
						c.Check(show(p) == shown[k], "header of packet %d %s was %s, is %s after packet %s went through the same demuxer", k, hx(p.Data), shown[k], show(p), hx(h.data))
					}
					c.Step(1)
				}
				c.Eval(len(ps))
				c.State(shown)
				c.Outcome(shown)
			}})
			bodies := [][]byte{nil, []byte("x"), []byte("v=0\r\n"), repBytes(5000, 1)}
			mk := func(i int) []byte {
				b := bodies[i%len(bodies)]
				if i/len(bodies)%2 == 0 {
					return sipText(fmt.Sprintf("INVITE sip:user%d@host%d;x=%d SIP/2.0", i, i, i), [][2]string{{"From", fmt.Sprintf("<sip:a%d@b>;tag=%d", i, i)}, {"Subject", fmt.Sprintf("s%d", i)}}, b)
				}
				return sipText("SIP/2.0 404 Not Found", [][2]string{{"To", fmt.Sprintf("<sip:t%d@b>;tag=%d", i, i)}, {"X", fmt.Sprintf("y%d", i)}}, b)
			}
			ss = append(ss, &Scenario{Name: "sip-messages", Note: "every sequence of 3 of 8 SIP messages, parsed from one reused byte buffer and from one buffered stream: each message as first seen and at the end", Run: func(c *Ctx) {
				var ids []int
				for i := 0; i < 3; i++ {
					ids = append(ids, c.Choose(8))
				}
				a := &arena{reuse: true}
				var stream bytes.Buffer
				var got []*sips.SIP
				var shown []string
				for _, i := range ids {
					s := sips.NewSIP()
					err := s.ParseBytes(a.in(mk(i)))
					c.Check(err == nil, "message %d: %v", i, err)
					shown = append(shown, sipShow(s))
					got = append(got, s)
					a.done()
					stream.Write(mk(i))
				}
				for k, s := range got {
					c.Check(sipShow(s) == shown[k], "message %d was %s, is %s after its buffer was overwritten", ids[k], clip(shown[k], 300), clip(sipShow(s), 300))
				}
				for _, size := range []int{16, 4096, 65536} {
					r := bufio.NewReaderSize(bytes.NewReader(stream.Bytes()), max(size, 512))
					var ms []*sips.SIP
					for k := range ids {
						s := sips.NewSIP()
						err := s.Parse(r)
						c.Check(err == nil, "message %d: %v", ids[k], err)
						c.Check(sipShow(s) == shown[k], "message %d from the stream is %s, want %s", ids[k], clip(sipShow(s), 300), clip(shown[k], 300))
						ms = append(ms, s)
					}
					for k, s := range ms {
						c.Check(sipShow(s) == shown[k], "message %d was %s, is %s after the stream was read on", ids[k], clip(shown[k], 300), clip(sipShow(s), 300))
					}
					c.Step(3)
				}
				c.Eval(4)
				c.Outcome(shown)
			}})
			return ss
		},
	})
}

func lastLine(b []byte) string {
	b = bytes.TrimRight(b, "\n")
	if i := bytes.LastIndexByte(b, '\n'); i >= 0 {
		b = b[i+1:]
	}
	return clip(string(b), 600)
}
