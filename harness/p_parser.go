package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/container/ts"
	"github.com/moggle-mog/goav/packet"
	"github.com/moggle-mog/goav/parser"
	"github.com/moggle-mog/goav/parser/aac"
	"github.com/moggle-mog/goav/parser/h264"
)

var startCode4 = []byte{0, 0, 0, 1}

// ---- reference models of the codec parsers ----

// h264Model is an independent converter from length-prefixed units to Annex-B.
type h264Model struct {
	sets []byte
	size int // of the length fields, 0 before any header
}

// avcConfig reads a decoder configuration record; ok is false when malformed.
func avcConfig(b []byte) (sets []byte, ok bool) {
	if len(b) < 7 {
		return nil, false
	}
	p := 5
	for round := 0; round < 2; round++ {
		if p >= len(b) {
			return nil, false
		}
		n := int(b[p])
		if round == 0 {
			n &= 31
		}
		p++
		if n == 0 {
			return nil, false
		}
		for ; n > 0; n-- {
			if len(b)-p < 2 {
				return nil, false
			}
			l := int(b[p])<<8 + int(b[p+1])
			p += 2
			if l == 0 || len(b)-p < l {
				return nil, false
			}
			sets = cat(sets, startCode4, b[p:p+l])
			p += l
		}
	}
	return sets, true
}

func (m *h264Model) parse(b []byte, hdr bool) (out []byte, ok bool) {
	if len(b) == 0 {
		return nil, false
	}
	if hdr {
		s, ok := avcConfig(b)
		if ok {
			m.sets, m.size = s, int(b[4]&3)+1
		}
		return nil, ok
	}
	if bytes.HasPrefix(b, startCode4) {
		return b, true
	}
	size := 4
	if m.size > 0 {
		size = m.size
	}
	if len(b) < size {
		return nil, false
	}
	out = cat(startCode4, []byte{0x09, 0xf0})
	var own []byte
	idr := false
	for len(b) > 0 {
		if len(b) < size {
			return nil, false
		}
		l := int64(0)
		for _, x := range b[:size] {
			l = l<<8 | int64(x)
		}
		b = b[size:]
		if l == 0 || l > int64(len(b)) {
			return nil, false
		}
		u := b[:l]
		b = b[l:]
		switch u[0] & 31 {
		case 5:
			if !idr {
				idr = true
				if own != nil {
					out = append(out, own...)
				} else {
					out = append(out, m.sets...)
				}
			}
			out = cat(out, startCode4, u)
		case 1, 6:
			out = cat(out, startCode4, u)
		case 7, 8:
			own = cat(own, startCode4, u)
		case 9:
		default:
			return nil, false
		}
	}
	return out, true
}

var aacRateTable = []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}

type aacModel struct {
	known        bool // a header is in force
	obj, idx, ch int
}

// header returns whether the configuration is inside the stated domain.
func aacInDomain(b []byte) (obj, idx, ch int, in bool) {
	if len(b) < 2 {
		return 0, 0, 0, false
	}
	obj = int(b[0] >> 3)
	idx = int(b[0]&7)<<1 | int(b[1]>>7)
	ch = int(b[1]>>3) & 15
	if obj == 5 || obj == 29 {
		// the extension's rate and the object type of the core follow
		bit := func(i int) int {
			if i/8 >= len(b) {
				return -1 << 20
			}
			return int(b[i/8]) >> uint(7-i%8) & 1
		}
		num := func(p, n int) (v int) {
			for k := 0; k < n; k++ {
				v = v*2 + bit(p+k)
			}
			return v
		}
		p := 17
		if num(13, 4) == 15 {
			p += 24
		}
		obj = num(p, 5)
	}
	return obj, idx, ch, obj >= 1 && obj <= 4 && idx < len(aacRateTable) && ch <= 7
}

// checkADTS reads one ADTS frame back independently.
func (m *aacModel) checkADTS(out, payload []byte) error {
	if len(out) != len(payload)+7 {
		return fmt.Errorf("%d bytes written for a payload of %d", len(out), len(payload))
	}
	h := out[:7]
	if h[0] != 0xff || h[1]>>4 != 0xf {
		return fmt.Errorf("no sync word in %s", hx(h))
	}
	if h[1]&6 != 0 || h[1]&1 != 1 {
		return fmt.Errorf("layer or protection bits wrong in %s", hx(h))
	}
	if int(h[2]>>6)+1 != m.obj || int(h[2]>>2)&15 != m.idx || int(h[2]&1)<<2|int(h[3]>>6) != m.ch {
		return fmt.Errorf("header %s announces object type %d rate index %d channels %d, want %d %d %d", hx(h), int(h[2]>>6)+1, int(h[2]>>2)&15, int(h[2]&1)<<2|int(h[3]>>6), m.obj, m.idx, m.ch)
	}
	if n := int(h[3]&3)<<11 | int(h[4])<<3 | int(h[5]>>5); n != len(out) {
		return fmt.Errorf("header %s announces a frame of %d bytes, it has %d", hx(h), n, len(out))
	}
	if h[6]&3 != 0 {
		return fmt.Errorf("header %s announces more than one raw data block", hx(h))
	}
	if !bytes.Equal(out[7:], payload) {
		return fmt.Errorf("payload changed")
	}
	return nil
}

// mp3Rate is the sample rate an MPEG audio frame header codes (0: reserved).
func mp3Rate(b []byte) int {
	i := b[2] >> 2 & 3
	if i == 3 {
		return 0
	}
	switch b[1] >> 3 & 3 {
	case 3:
		return []int{44100, 48000, 32000}[i]
	case 2:
		return []int{22050, 24000, 16000}[i]
	case 0:
		return []int{11025, 12000, 8000}[i]
	}
	return 0
}

// mp3FindingRate is what the documented defect reports instead.
func mp3FindingRate(b []byte) int {
	i := b[2] >> 1 & 3
	if i == 3 {
		return 0
	}
	return []int{44100, 48000, 32000}[i]
}

func nal(b ...byte) []byte { return cat(be32(len(b)), b) }

func avcc(sps, pps []byte, tail ...byte) []byte {
	return cat([]byte{1, 0x4d, 0, 0x1e, 0xff, 0xe1}, be16(len(sps)), sps, []byte{1}, be16(len(pps)), pps, tail)
}

// plainHeader is a packet header of the caller's own making: anything that gives
// the answers of packet.AudioPacketHeader and packet.VideoPacketHeader will do.
type plainHeader struct {
	sound, aac, codec                               uint8
	ct                                              int32
	isAAC, isMP3, aacHdr, key, inter, hdr, end, avc bool
}

func (h plainHeader) SoundFormat() uint8     { return h.sound }
func (h plainHeader) AACType() uint8         { return h.aac }
func (h plainHeader) IsSoundAAC() bool       { return h.isAAC }
func (h plainHeader) IsSoundMP3() bool       { return h.isMP3 }
func (h plainHeader) IsAACSeqHdr() bool      { return h.aacHdr }
func (h plainHeader) IsKeyFrame() bool       { return h.key }
func (h plainHeader) IsInterFrame() bool     { return h.inter }
func (h plainHeader) IsSeqHdr() bool         { return h.hdr }
func (h plainHeader) IsEndOfSeq() bool       { return h.end }
func (h plainHeader) IsCodecAvc() bool       { return h.avc }
func (h plainHeader) CodecID() uint8         { return h.codec }
func (h plainHeader) CompositionTime() int32 { return h.ct }

// demux makes a packet from FLV tag data. For about half of all contents the header
// becomes one of the caller's own.
func demux(c *Ctx, pt int, data []byte) (*packet.Packet, error) {
	p, err := demuxTag(c, pt, data)
	k := len(data) + pt
	for _, x := range data {
		k += int(x)
	}
	if err != nil || k%2 == 0 {
		return p, err
	}
	var h plainHeader
	a, v := p.Header.(packet.AudioPacketHeader), p.Header.(packet.VideoPacketHeader)
	h.sound, h.aac, h.isAAC, h.isMP3, h.aacHdr = a.SoundFormat(), a.AACType(), a.IsSoundAAC(), a.IsSoundMP3(), a.IsAACSeqHdr()
	h.key, h.inter, h.hdr, h.end, h.avc, h.codec, h.ct = v.IsKeyFrame(), v.IsInterFrame(), v.IsSeqHdr(), v.IsEndOfSeq(), v.IsCodecAvc(), v.CodecID(), v.CompositionTime()
	p.Header = &h
	if k%4 == 1 {
		p.Header = h
	}
	return p, err
}

// demuxTag makes a packet with the demuxer's own header from FLV tag data.
func demuxTag(c *Ctx, pt int, data []byte) (*packet.Packet, error) {
	p := pkt(pt, append([]byte{}, data...))
	if c.demuxer == nil {
		c.demuxer = flv.NewDemuxer()
	}
	err := c.demuxer.Demux(p)
	return p, err
}

func vidData(key, hdr bool, ct int, media []byte) []byte {
	f, t := byte(0x27), byte(1)
	if key {
		f = 0x17
	}
	if hdr {
		t = 0
	}
	return cat([]byte{f, t}, be24(ct), media)
}

func checkH264(c *Ctx, err error, out, want []byte, ok bool, what string) {
	if !ok {
		c.Check(err != nil, "%s must be refused, output %s", what, hx(out))
		return
	}
	c.Check(err == nil, "%s: %v", what, err)
	c.Check(bytes.Equal(out, want), "%s: output %s, want %s", what, hx(out), hx(want))
}

func init() {
	cfgA := avcc([]byte{0x67, 0x4d, 1, 2}, []byte{0x68, 0xee, 3})
	cfgB := avcc(cat([]byte{0x27, 0x64}, repBytes(300, 9)), []byte{0x28, 9}, 0xfd, 0xf8, 0xf8, 0)

	register(&Prop{
		ID: "P01", Level: "exploration",
		Rule:        "Each evaluation converts one video packet with the real parser and compares the bytes with an independent converter; refused packets must return an error. Distinct outcomes are distinct outputs.",
		Assumptions: []string{"Data that starts with 00000001 is taken as Annex-B"},
		Build: func(th bool) []*Scenario {
			units := [][]byte{
				nal(0x65, 1, 2), nal(0x41), nal(0x06, 0, 0, 1, 0x65), nal(0x67, 0x4d, 0), nal(0x68, 0xce), nal(0x09, 0xf0),
				nal(0x25, 0, 0, 0, 1, 9), nal(0x67, 7), nal(0x61, 0xff, 0), nal(0x0c, 1), {0, 0, 0, 0}, {0, 0, 0, 9, 0x41}, {0, 0, 2}, {0xff, 0xff, 0xff, 0xff, 0x41},
			}
			depth := pick(5, 6)
			var ss []*Scenario
			ss = append(ss, &Scenario{Name: "unit-sequences", Note: fmt.Sprintf("every sequence of up to %d of %d units (all handled types, refused type, zero, excessive and incomplete lengths), with none of two sequence headers before", depth, len(units)), Run: func(c *Ctx) {
				p := h264.NewParser()
				m := &h264Model{}
				switch c.Choose(3) {
				case 1:
					c.Check(p.Parse(cfgA, true, io.Discard) == nil, "sequence header refused")
					m.parse(cfgA, true)
				case 2:
					c.Check(p.Parse(cfgB, true, io.Discard) == nil, "sequence header refused")
					m.parse(cfgB, true)
				}
				n := c.Choose(depth + 1)
				var b []byte
				for i := 0; i < n; i++ {
					u := units[c.Choose(len(units))]
					b = append(b, u...)
				}
				in := append([]byte{}, b...)
				var w bytes.Buffer
				err := p.Parse(in, false, &w)
				c.Logf("%s -> %s, error %v", hx(b), hx(w.Bytes()), err)
				want, ok := m.parse(b, false)
				checkH264(c, err, w.Bytes(), want, ok, "packet "+hx(b))
				c.Check(bytes.Equal(in, b), "the packet was modified")
				c.Eval(1)
				c.Outcome(w.Bytes(), ok)
			}})
			ss = append(ss, chunked("unit-types", "every first byte of a unit (256) alone, before and after a key unit, with and without parameter sets in the packet", 256*8, 64, func(c *Ctx, i int) {
				h, k := byte(i>>3), i&7
				p := h264.NewParser()
				m := &h264Model{}
				_ = p.Parse(cfgA, true, io.Discard)
				m.parse(cfgA, true)
				var b []byte
				if k&1 != 0 {
					b = cat(b, nal(0x68, 0xaa), nal(0x67, 0xbb, 0xcc))
				}
				if k&2 != 0 {
					b = cat(b, nal(0x65, 0x88, 0x84))
				}
				b = cat(b, nal(h, 0, 0, 3, 1), nal(h))
				if k&4 != 0 {
					b = cat(b, nal(0x45, 0x88), nal(0x41, 0x9a))
				}
				var w bytes.Buffer
				err := p.Parse(b, false, &w)
				want, ok := m.parse(b, false)
				checkH264(c, err, w.Bytes(), want, ok, "packet "+hx(b))
				c.Outcome(w.Bytes())
			}))
			ls := []int{}
			for n := 1; n <= pick(1200, 70000); n++ {
				ls = append(ls, n)
			}
			if !th {
				for _, n := range []int{2047, 2048, 2049, 4096, 65534, 65535, 65536, 65537, 70000, 1 << 20} {
					ls = append(ls, n)
				}
			} else {
				ls = append(ls, 1<<20, 1<<24-1, 1<<24, 1<<24+1)
			}
			ss = append(ss, chunked("unit-lengths", fmt.Sprintf("%d unit lengths from 1 up for slice, IDR, SEI, SPS and PPS units, and every length prefix off by one", len(ls)), len(ls), 20, func(c *Ctx, i int) {
				n := ls[i]
				for _, typ := range []byte{0x41, 0x65, 0x06, 0x67, 0x68} {
					u := repBytes(n, i)
					u[0] = typ
					for d := -1; d <= 1; d++ {
						if d != 0 && n > 1500 {
							continue
						}
						b := cat(be32(n+d), u, nal(0x65, 1))
						p := h264.NewParser()
						m := &h264Model{}
						var w bytes.Buffer
						err := p.Parse(b, false, &w)
						want, ok := m.parse(b, false)
						checkH264(c, err, w.Bytes(), want, ok, fmt.Sprintf("unit of %d bytes with length prefix %d", n, n+d))
					}
				}
				c.Outcome(n)
			}))
			top := pick(26, 27)
			ss = append(ss, cyclic("very-long", "packets", pick(150000, 3000000), 6, func(c *Ctx) func(op, step int) {
				p, m := h264.NewParser(), &h264Model{}
				return func(k, n int) {
					b := [][]byte{nal(0x41, byte(n), byte(n>>8)), nal(0x65, byte(n), 1), cat(nal(9, 0xf0), nal(6, 1, 2), nal(0x65, byte(n))), cfgA, cat(startCode4, []byte{0x41, byte(n)}), cat(nal(0x67, 1), nal(0x68, 2), nal(0x65, 3))}[k]
					var w bytes.Buffer
					err := p.Parse(b, k == 3, &w)
					want, ok := m.parse(b, k == 3)
					checkH264(c, err, w.Bytes(), want, ok, fmt.Sprintf("packet %d", n))
				}
			}))
			ss = append(ss, &Scenario{Name: "large-packets", Note: fmt.Sprintf("packets of one unit or of three, of a size around every power of two from 2^18 to 2^%d", top), Run: func(c *Ctx) {
				buf := repBytes(1<<20, 3)
				for e := 18; e <= top; e++ {
					for d := -1; d <= 1; d++ {
						u := make([]byte, 1<<e+d)
						for o := 0; o < len(u); o += len(buf) {
							copy(u[o:], buf)
						}
						for _, k := range []byte{0x41, 0x65, 0x06} {
							u[0] = k
							for parts := 1; parts <= 3; parts += 2 {
								b := make([]byte, 0, len(u)+12)
								for q := 0; q < parts; q++ {
									x := u[q*(len(u)/3):]
									if parts == 3 && q < 2 {
										x = x[:len(u)/3]
									}
									h := x[0]
									b = cat(b, be32(len(x)), []byte{0x41}, x[1:])
									if q == 0 {
										b[4] = h
									}
								}
								p, m := h264.NewParser(), &h264Model{}
								var w bytes.Buffer
								err := p.Parse(b, false, &w)
								want, ok := m.parse(b, false)
								c.Check(ok, "the reference refuses a packet of %d units making %d bytes", parts, len(u))
								checkH264(c, err, w.Bytes(), want, ok, fmt.Sprintf("%d units making %d bytes", parts, len(u)))
							}
						}
						c.Outcome(e*4 + d)
					}
				}
			}})
			var cnt []int
			for n := 1; n <= 300; n++ {
				cnt = append(cnt, n)
			}
			cnt = append(cnt, 511, 512, 513, 1023, 1024, 1025, 4096, 4097, 20000)
			ss = append(ss, chunked("many-units", fmt.Sprintf("%d numbers of units (to 20000) in one packet: slices, key units, SEI, delimiters, parameter sets small or of 700 bytes ahead of a key unit, or all in turn; twice on one parser, with and without a sequence header", len(cnt)), len(cnt)*7*2, 16, func(c *Ctx, i int) {
				n, kind := cnt[i/14], i/2%7
				p, m := h264.NewParser(), &h264Model{}
				if i&1 == 1 {
					c.Check(p.Parse(cfgA, true, io.Discard) == nil, "sequence header refused")
					m.parse(cfgA, true)
				}
				var b []byte
				for k := 0; k < n; k++ {
					t := []byte{0x41, 0x65, 0x06, 0x09, 0x67, 0x68, []byte{0x67, 0x68, 6, 0x41, 0x65, 9, 0x68}[k%7]}[kind]
					l := 2
					if kind == 5 {
						if n > 600 {
							return
						}
						l = 700
					}
					u := repBytes(l, k)
					b = append(b, nal(cat([]byte{t}, u)...)...)
				}
				b = append(b, nal(0x65, 7)...)
				for r := 0; r < 2; r++ {
					var w bytes.Buffer
					err := p.Parse(b, false, &w)
					want, ok := m.parse(b, false)
					checkH264(c, err, w.Bytes(), want, ok, fmt.Sprintf("packet of %d units of kind %d", n, kind))
				}
				c.Outcome(i)
			}))
			packets := [][]byte{
				nal(0x65, 1), cat(nal(0x67, 1), nal(0x68, 2), nal(0x65, 3)), cat(nal(0x67, 4), nal(0x68, 5)), cat(nal(0x68, 6), nal(0x41, 7)), nal(0x67, 8, 8),
				cat(nal(9, 0xf0), nal(6, 1), nal(0x65, 1), nal(0x67, 0xa), nal(0x65, 2)), cat(nal(0x68, 0xb), nal(0x65, 1), nal(0x0c, 1)), cat(nal(0x67, 0xc), []byte{0, 0, 0, 2, 1}),
				cat(startCode4, []byte{0x67, 0xd}, startCode4, []byte{0x65, 9}), cat(startCode4, []byte{0x41}), nal(0x41, 0x9a), {},
			}
			pd := pick(4, 5)
			ss = append(ss, &Scenario{Name: "packet-sequences", Note: fmt.Sprintf("every sequence of up to %d of %d packets (with and without parameter sets and key units, Annex-B, refused ones) on one parser, with none, one or two sequence headers before and with a header in between", pd, len(packets)), Run: func(c *Ctx) {
				p := h264.NewParser()
				m := &h264Model{}
				head := func(b []byte) {
					c.Check(p.Parse(b, true, io.Discard) == nil, "sequence header refused")
					m.parse(b, true)
				}
				pre := c.Choose(4)
				if pre == 1 || pre == 2 {
					head(cfgA)
				}
				if pre == 2 {
					head(cfgB)
				}
				n := 1 + c.Choose(pd)
				for i := 0; i < n; i++ {
					if pre == 3 && i == 1 {
						head(cfgA)
					}
					b := packets[c.Choose(len(packets))]
					var w bytes.Buffer
					err := p.Parse(append([]byte{}, b...), false, &w)
					c.Logf("%s -> %s, error %v", hx(b), hx(w.Bytes()), err)
					want, ok := m.parse(b, false)
					checkH264(c, err, w.Bytes(), want, ok, fmt.Sprintf("packet %d, %s,", i, hx(b)))
					c.Outcome(w.Bytes(), ok)
				}
				c.Eval(n)
			}})
			sized := func(cfg []byte, size int) []byte {
				b := append([]byte{}, cfg...)
				b[4] = b[4]&0xfc | byte(size-1)
				return b
			}
			pre := func(size int, us ...[]byte) (b []byte) {
				for _, u := range us {
					b = cat(b, be32(len(u))[4-size:], u)
				}
				return b
			}
			type sop struct {
				hdr bool
				b   []byte
			}
			sops := []sop{{true, sized(cfgA, 4)}, {true, sized(cfgB, 2)}, {true, sized(cfgA, 1)}, {true, sized(cfgB, 2)[:12]}, {true, sized(cfgA, 1)[:9]},
				{false, startCode4}, {false, cat(startCode4, []byte{0x65, 9})}, {false, []byte{1, 0x41, 0}}, {false, []byte{0}}, {false, []byte{0, 1}}}
			for _, size := range []int{1, 2, 4} {
				sops = append(sops, sop{false, pre(size, []byte{0x65, 1, 2})}, sop{false, pre(size, []byte{9, 0xf0}, []byte{6, 1}, []byte{0x67, 5}, []byte{0x68, 6}, []byte{0x65, 7}, []byte{0x41})}, sop{false, pre(size, repBytes(200, 5)[:199])},
					sop{false, append(pre(size, []byte{0x41, 9}), make([]byte, size-1)...)}, sop{false, cat(pre(size, []byte{0x41, 9}), be32(9)[4-size:], []byte{0x41})}, sop{false, pre(size, append([]byte{0x61}, make([]byte, 300>>uint(4-size)/4)...))})
			}
			sd := pick(4, 5)
			ss = append(ss, &Scenario{Name: "length-sizes", Note: fmt.Sprintf("every history of up to %d of %d headers (declaring length fields of 1, 2 and 4 bytes, some refused) and packets written with each size, whole and cut", sd, len(sops)), Run: func(c *Ctx) {
				p := h264.NewParser()
				m := &h264Model{}
				n := 1 + c.Choose(sd)
				for i := 0; i < n; i++ {
					o := sops[c.Choose(len(sops))]
					var w bytes.Buffer
					err := p.Parse(append([]byte{}, o.b...), o.hdr, &w)
					c.Logf("header %v %s -> %s, error %v", o.hdr, clip(hx(o.b), 60), clip(hx(w.Bytes()), 60), err)
					want, ok := m.parse(o.b, o.hdr)
					checkH264(c, err, w.Bytes(), want, ok, fmt.Sprintf("packet %d (header %v), %s,", i, o.hdr, clip(hx(o.b), 60)))
					c.State(m.size, m.sets)
				}
				c.Eval(n)
			}})
			ss = append(ss, chunked("sized-lengths", "units of 1..70000 bytes (every length to 600, then the neighbourhoods of powers of two) behind length fields of 1, 2 and 4 bytes, each followed by another unit", 3*900, 16, func(c *Ctx, i int) {
				size := []int{1, 2, 4}[i%3]
				n := i/3 + 1
				if n > 600 {
					n = 1<<uint(10+(n-601)/50) - 25 + (n-601)%50
				}
				if n >= 1<<uint(8*size) {
					return
				}
				p := h264.NewParser()
				m := &h264Model{}
				cfg := sized(cfgA, size)
				c.Check(p.Parse(cfg, true, io.Discard) == nil, "sequence header refused")
				m.parse(cfg, true)
				u := repBytes(n, i)
				u[0] = 0x65
				b := pre(size, u, []byte{0x41, 1})
				var w bytes.Buffer
				err := p.Parse(b, false, &w)
				want, ok := m.parse(b, false)
				checkH264(c, err, w.Bytes(), want, ok, fmt.Sprintf("unit of %d bytes, length of %d bytes,", n, size))
				c.Outcome(size, n)
			}))
			ss = append(ss, allBytes("raw-bytes", "every packet over a small byte alphabet", []byte{0, 1, 2, 5, 9, 0x65, 0x67}, pick(7, 8), pick(7, 8), func(c *Ctx, b []byte) {
				p := h264.NewParser()
				m := &h264Model{}
				var w bytes.Buffer
				err := p.Parse(b, false, &w)
				want, ok := m.parse(b, false)
				checkH264(c, err, w.Bytes(), want, ok, "packet "+hx(b))
			}))
			return ss
		},
	})

	register(&Prop{
		ID: "P02", Level: "model_checking",
		Rule:        "Every history of sequence headers and video packets is run through demuxing and codec parsing and compared with a model that holds the parameter sets of the latest valid header; a state is a distinct set of parameter sets in force.",
		Assumptions: []string{"A sequence header is well-formed when it announces at least one sequence and one picture parameter set and all of them lie within it"},
		Build: func(th bool) []*Scenario {
			multi := cat([]byte{1, 0x64, 0, 0x1f, 0xff, 0xe2}, be16(2), []byte{0x67, 1}, be16(3), []byte{0x67, 2, 2}, []byte{3}, be16(1), []byte{0x68}, be16(2), []byte{0x68, 1}, be16(3), []byte{0x68, 2, 2})
			hdrs := [][]byte{
				cfgA, cfgB, multi,
				cfgA[:len(cfgA)-1], cfgB[:7], {1}, {}, cat(cfgA[:4], []byte{0xfd}, cfgA[5:len(cfgA)-1]),
				cat([]byte{1, 0x4d, 0, 0x1e, 0xff, 0xe1}, be16(0), []byte{1}, be16(1), []byte{0x68, 1, 2}),
				cat([]byte{1, 0x4d, 0, 0x1e, 0xff, 0xe0}, []byte{1}, be16(1), []byte{0x68, 1, 2, 3}),
				cat([]byte{1, 0x4d, 0, 0x1e, 0xff, 0xe1}, be16(2), []byte{0x67, 1}, []byte{1}, be16(9), []byte{0x68, 1}),
				cat([]byte{1, 0x4d, 0, 0x1e, 0xff, 0xe1}, be16(2), []byte{0x67, 1}, []byte{0}),
			}
			media := [][]byte{
				nal(0x65, 0x88), cat(nal(0x67, 0x99), nal(0x68, 0x77), nal(0x65, 3)), cat(nal(9, 0x10), nal(6, 5), nal(0x65, 1), nal(0x65, 2)),
				nal(0x41, 0x9a), cat(nal(0x68, 0x55), nal(0x41, 1)), cat(startCode4, []byte{0x65, 1, 2}), {0, 0, 0, 0},
			}
			depth := pick(4, 5)
			var ss []*Scenario
			ss = append(ss, &Scenario{Name: "histories", Note: fmt.Sprintf("every history of up to %d of %d sequence headers (3 valid) and %d video packets, then a key frame", depth, len(hdrs), len(media)), Run: func(c *Ctx) {
				p := parser.NewCodecParser()
				m := &h264Model{}
				n := c.Choose(depth + 1)
				for i := 0; i <= n; i++ {
					k := len(hdrs) // the final key frame without parameter sets
					if i < n {
						k = c.Choose(len(hdrs) + len(media))
					}
					hdr := k < len(hdrs)
					var b []byte
					if hdr {
						b = hdrs[k]
					} else {
						b = media[k-len(hdrs)]
					}
					pk, err := demux(c, packet.PktVideo, vidData(hdr || k-len(hdrs) < 3, hdr, 0, b))
					c.Check(err == nil, "demux: %v", err)
					var w bytes.Buffer
					err = p.Parse(pk, &w)
					want, ok := m.parse(b, hdr)
					c.Logf("header %v %s -> %s error %v", hdr, hx(b), hx(w.Bytes()), err)
					c.Step(1)
					checkH264(c, err, w.Bytes(), want, ok, fmt.Sprintf("step %d, sequence header %v, %s", i, hdr, hx(b)))
					c.State(m.sets)
					c.Outcome(w.Bytes())
				}
				c.Eval(n + 1)
			}})
			base := [][]byte{cfgA, cfgB[:40], multi, cfgB}
			var muts [][]byte
			for _, b := range base {
				for i := 0; i <= len(b); i++ {
					muts = append(muts, b[:i])
				}
			}
			for _, b := range [][]byte{cfgA, multi} {
				for i := 5; i < len(b); i++ {
					for v := 0; v < 256; v++ {
						x := append([]byte{}, b...)
						x[i] = byte(v)
						muts = append(muts, x)
					}
				}
			}
			for l := 0; l <= 3; l++ { // big announced lengths
				for _, hi := range []byte{0, 1, 0x7f, 0x80, 0xff} {
					for lo := 0; lo < 256; lo++ {
						muts = append(muts, cat([]byte{1, 2, 3, 4, 0xff, 0xe1, hi, byte(lo)}, repBytes(int(hi)<<8|lo, 3), []byte{1}, be16(300+l), repBytes(302, 5)))
					}
				}
			}
			ss = append(ss, chunked("many-headers", "12000 sequence headers on one parser, each followed by a key frame, with none, one or ten refused headers in between, and with all headers different or changing every 1000", 6, 1, func(c *Ctx, i int) {
				p, m := h264.NewParser(), &h264Model{}
				for k := 0; k < 12000; k++ {
					v := k
					if i&1 == 1 {
						v /= 1000
					}
					h := avcc([]byte{0x67, 0x4d, byte(v >> 8), byte(v)}, []byte{0x68, byte(v >> 4), byte(v)})
					err := p.Parse(h, true, io.Discard)
					_, ok := m.parse(h, true)
					c.Check(err == nil && ok, "header %d: %v", k, err)
					for b := 0; b < []int{0, 1, 10}[i/2]; b++ {
						c.Check(p.Parse(h[:len(h)-1], true, io.Discard) != nil, "truncated header accepted")
					}
					var w bytes.Buffer
					err = p.Parse(nal(0x65, 1), false, &w)
					want, _ := m.parse(nal(0x65, 1), false)
					checkH264(c, err, w.Bytes(), want, true, fmt.Sprintf("key frame after %d headers", k+1))
				}
				c.State(m.sets)
				c.Step(24000)
				c.Outcome(i)
			}))
			ss = append(ss, chunked("mutated-headers", "every truncation of four headers, every value of every byte of two, and 5120 length combinations, each between a valid header and a key frame", len(muts), 128, func(c *Ctx, i int) {
				p := h264.NewParser()
				m := &h264Model{}
				_ = p.Parse(cfgA, true, io.Discard)
				m.parse(cfgA, true)
				err := p.Parse(muts[i], true, io.Discard)
				_, ok := m.parse(muts[i], true)
				c.Check((err == nil) == ok, "header %s: error %v, well-formed %v", hx(muts[i]), err, ok)
				var w bytes.Buffer
				err = p.Parse(nal(0x65, 1), false, &w)
				want, _ := m.parse(nal(0x65, 1), false)
				checkH264(c, err, w.Bytes(), want, true, "key frame after header "+hx(muts[i]))
				c.State(m.sets)
				c.Outcome(w.Bytes())
				c.Step(2)
			}))
			ss = append(ss, chunked("set-counts", "every count of sequence parameter sets 1..31 with every count of picture parameter sets 1..255, then a key frame", 31*255, 64, func(c *Ctx, i int) {
				hdr := []byte{1, 0x4d, 0, 0x1e, 0xff, byte(0xe0 | (i%31 + 1))}
				for k := 0; k <= i%31; k++ {
					hdr = cat(hdr, be16(2), []byte{0x67, byte(k)})
				}
				hdr = append(hdr, byte(i/31+1))
				for k := 0; k <= i/31; k++ {
					hdr = cat(hdr, be16(2), []byte{0x68, byte(k)})
				}
				p, m := h264.NewParser(), &h264Model{}
				err := p.Parse(hdr, true, io.Discard)
				_, ok := m.parse(hdr, true)
				c.Check(err == nil && ok, "header with %d and %d parameter sets: %v", i%31+1, i/31+1, err)
				var w bytes.Buffer
				err = p.Parse(nal(0x65, 1), false, &w)
				want, _ := m.parse(nal(0x65, 1), false)
				checkH264(c, err, w.Bytes(), want, true, fmt.Sprintf("key frame after a header with %d and %d parameter sets", i%31+1, i/31+1))
				c.State(m.sets)
				c.Step(2)
			}))
			return ss
		},
	})

	aacStep := func(c *Ctx, p *aac.Parser, m *aacModel, b []byte, typ uint8) {
		var w bytes.Buffer
		in := append([]byte{}, b...)
		err := p.Parse(in, typ, &w)
		c.Check(bytes.Equal(in, b), "the packet was modified")
		aacJudge(c, m, b, int(typ), err, w.Bytes())
		if m.known {
			c.Check(p.SampleRate() == aacRateTable[m.idx], "sample rate %d, the latest header announces %d", p.SampleRate(), aacRateTable[m.idx])
		}
	}

	register(&Prop{
		ID: "P03", Level: "model_checking",
		Rule:        "Every history of AAC packets is run against the real parser and a model holding the latest accepted configuration; each ADTS header is decoded independently bit by bit. A state is a distinct configuration in force.",
		Assumptions: []string{"After the parser accepts a configuration outside the stated domain (other object types, more than 7 channels), frames are not judged until the next header inside it"},
		Build: func(th bool) []*Scenario {
			type op struct {
				b   []byte
				typ uint8
			}
			ops := []op{{[]byte{0x12, 0x10}, 0}, {[]byte{0x2b, 0x92, 0x08, 0}, 0}, {[]byte{0x0b, 0xb8}, 0}, {[]byte{0x26, 0x20, 0xff}, 0}, {[]byte{0x12}, 0}, {[]byte{0x17, 0x90}, 0}, {[]byte{0x16, 0x80}, 0}, {nil, 0}, {[]byte{0x21}, 1}, {repBytes(300, 1), 1}, {nil, 1}, {repBytes(8184, 2), 1}, {repBytes(8185, 2), 1}, {[]byte{1, 2}, 2}, {[]byte{0x12, 0x10}, 255}}
			depth := pick(4, 5)
			var ss []*Scenario
			ss = append(ss, &Scenario{Name: "histories", Note: fmt.Sprintf("every history of up to %d of %d packets (4 valid headers, one of them HE-AAC, 4 refused ones, frames of 0, 1, 300, 8184 and 8185 bytes, unknown types)", depth, len(ops)), Run: func(c *Ctx) {
				p := aac.NewParser()
				m := &aacModel{}
				n := 1 + c.Choose(depth)
				for i := 0; i < n; i++ {
					o := ops[c.Choose(len(ops))]
					c.Logf("type %d %s", o.typ, clip(hx(o.b), 40))
					aacStep(c, p, m, o.b, o.typ)
					c.Step(1)
					c.State(m.known, m.obj, m.idx, m.ch)
				}
				c.Eval(n)
				c.Outcome(m.known, m.obj, m.idx, m.ch)
			}})
			ss = append(ss, cyclic("very-long", "packets", pick(150000, 3000000), len(ops), func(c *Ctx) func(op, step int) {
				p, m := aac.NewParser(), &aacModel{}
				return func(k, n int) { aacStep(c, p, m, ops[k].b, ops[k].typ) }
			}))
			ss = append(ss, chunked("very-long-frames", "70000 frames of one length, 1 to 8184 bytes, on one parser", 14, 1, func(c *Ctx, i int) {
				p, m := aac.NewParser(), &aacModel{}
				aacStep(c, p, m, []byte{0x12, 0x10}, 0)
				b := repBytes(min(1<<uint(i), 8184), i)
				for k := 0; k < 70000; k++ {
					aacStep(c, p, m, b, 1)
				}
				c.Step(70000)
				c.Outcome(i)
			}))
			ss = append(ss, chunked("configurations", "all 65536 two-byte configurations, each after another one and followed by a frame", 65536, 512, func(c *Ctx, i int) {
				p := aac.NewParser()
				m := &aacModel{}
				aacStep(c, p, m, []byte{0x0a, 0x38}, 0)
				aacStep(c, p, m, []byte{byte(i >> 8), byte(i)}, 0)
				aacStep(c, p, m, []byte{9, 8, 7}, 1)
				aacStep(c, p, m, repBytes(2041, 3), 1)
				c.State(m.known, m.obj, m.idx, m.ch)
				c.Outcome(m.obj, m.idx, m.ch)
				c.Step(4)
			}))
			var ls []int
			for n := 0; n <= 8400; n++ {
				ls = append(ls, n)
			}
			for _, b := range []int{1 << 14, 3 << 13, 1 << 15, 1 << 16, 1<<16 + 1<<13, 1 << 20} {
				for d := -10; d <= 10; d++ {
					ls = append(ls, b+d)
				}
			}
			ss = append(ss, chunked("frame-lengths", "every frame length 0..8400 and windows around larger powers of two", len(ls), 100, func(c *Ctx, i int) {
				p := aac.NewParser()
				m := &aacModel{}
				aacStep(c, p, m, []byte{0x1c, 0xb8}, 0)
				aacStep(c, p, m, repBytes(ls[i], i), 1)
				aacStep(c, p, m, []byte{1, 2, 3}, 1)
				c.Outcome(ls[i])
				c.Step(3)
			}))
			ss = append(ss, chunked("lengths-by-configuration", "every frame length 0..8200 under each channel count with object types and rates taking turns", 8*8201, 512, func(c *Ctx, i int) {
				p := aac.NewParser()
				m := &aacModel{}
				n, ch := i/8, i%8
				obj, rate := 1+(n+n/4)%4, n/4%13
				aacStep(c, p, m, []byte{byte(obj<<3 | rate>>1), byte(rate<<7 | ch<<3)}, 0)
				aacStep(c, p, m, repBytes(n, i), 1)
				aacStep(c, p, m, []byte{1, 2, 3}, 1)
				c.Step(3)
			}))
			ss = append(ss, chunked("extensions", "every object type, rate and channel count followed by backward-compatible extensions (SBR, PS, at every rate, present or not), by explicit ones and by program data, whole and cut", 32*16*16, 256, func(c *Ctx, i int) {
				p := aac.NewParser()
				m := &aacModel{}
				cfg := []byte{byte(i/16/16<<3 | i/16%16>>1), byte(i/16%16<<7 | i%16<<3)}
				for _, x := range [][]byte{{0x56, 0xe5, 0xa0}, {0x56, 0xe5, 0x98}, {0x56, 0xe5, byte(0x80 | i%13<<3)}, {0x56, 0xe5, 0x00}, {0x56, 0xe5, 0xa5, 0x48, 0x80}, {0x56, 0xe5}, {0x08, 0x00}, {0xff, 0xff, 0xff, 0xff, 0xff}, {0x04, 0xc8, 0x44, 0x00, 0x20, 0x00, 0xc4, 0x0c, 'L', 'a', 'v', 'c'}} {
					aacStep(c, p, m, cat(cfg, x), 0)
					aacStep(c, p, m, []byte{9, 8, 7}, 1)
				}
				c.State(m.known, m.obj, m.idx, m.ch)
				c.Outcome(m.obj, m.idx, m.ch)
				c.Step(18)
			}))
			ss = append(ss, chunked("he-aac", "HE-AAC types 5 and 29: every base rate and channel count, every extension rate (coded and explicit), every core type, followed by further data or not, whole and cut", 2*16*16*17, 64, func(c *Ctx, i int) {
				obj, idx, ch, ext := []int{5, 29}[i&1], i>>1&15, i>>5&15, i>>9
				p := aac.NewParser()
				m := &aacModel{}
				for core := 0; core < 32; core++ {
					var bits []byte
					put := func(v, n int) {
						for k := n - 1; k >= 0; k-- {
							bits = append(bits, byte(v>>uint(k)&1))
						}
					}
					put(obj, 5)
					put(idx, 4)
					put(ch, 4)
					if ext < 16 {
						put(ext, 4)
						if ext == 15 {
							put(48000, 24)
						}
					} else {
						put(15, 4)
						put(0xfedcba, 24)
					}
					put(core, 5)
					for len(bits)%8 != 0 {
						bits = append(bits, byte(core&1))
					}
					b := make([]byte, len(bits)/8)
					for k, x := range bits {
						b[k/8] |= x << uint(7-k%8)
					}
					for _, x := range [][]byte{b, cat(b, []byte{0, 0x56, 0xe5, 0xa5, 0x48, 0x80}), b[:len(b)-1], b[:2]} {
						aacStep(c, p, m, x, 0)
						aacStep(c, p, m, []byte{9, 8, 7}, 1)
					}
					c.State(m.known, m.obj, m.idx, m.ch)
					c.Outcome(m.obj, m.idx, m.ch)
				}
				c.Step(256)
			}))
			ss = append(ss, chunked("packet-types", "every packet type 0..255 before and after a header", 256, 16, func(c *Ctx, i int) {
				p := aac.NewParser()
				m := &aacModel{}
				aacStep(c, p, m, []byte{0x12, 0x10, 3}, uint8(i))
				aacStep(c, p, m, []byte{0x11, 0x90}, 0)
				aacStep(c, p, m, []byte{0x1a, 0x38, 3}, uint8(i))
				aacStep(c, p, m, []byte{5}, 1)
				c.Step(4)
				c.Outcome(i, m.idx)
			}))
			return ss
		},
	})

	register(&Prop{
		ID: "P04", Level: "model_checking",
		Rule:        "Every history of packets of all kinds is demuxed and parsed by one codec parser and compared with a model of routing, codec state and announced sample rate. A state is a distinct model state.",
		Assumptions: []string{"One stream carries one audio codec (AAC or MP3)"},
		Findings:    map[string]string{"mp3-rate-bits": ""},
		Build: func(th bool) []*Scenario {
			type op struct {
				pt   int
				data []byte
			}
			video := []op{{packet.PktVideo, vidData(true, true, 0, cfgA)}, {packet.PktVideo, vidData(true, false, 7, nal(0x65, 1))}, {packet.PktVideo, []byte{0x12, 1, 0, 0, 0, 0, 0, 0, 1, 0x65}}, {packet.PktMetadata, []byte{2, 0, 0}}, {7, []byte{0x17, 1, 0, 0, 0, 1}}}
			aacs := []op{{packet.PktAudio, []byte{0xaf, 0, 0x12, 0x10}}, {packet.PktAudio, []byte{0xaf, 0, 0x11, 0x90}}, {packet.PktAudio, []byte{0xaf, 0, 0x15, 0x88, 0}}, {packet.PktAudio, []byte{0xaf, 0, 0x17, 0x90}}, {packet.PktAudio, []byte{0xaf, 1, 4, 4}}, {packet.PktAudio, []byte{0xaf, 1}}, {packet.PktAudio, []byte{0xaf, 9, 1}}, {packet.PktAudio, []byte{0x3f, 1, 1}}}
			mp3s := []op{{packet.PktAudio, []byte{0x2f, 0xff, 0xfb, 0x90, 0x64}}, {packet.PktAudio, []byte{0x2f, 0xff, 0xfb, 0x94, 0}}, {packet.PktAudio, []byte{0x2e, 0xff, 0xfb, 0x98, 0}}, {packet.PktAudio, []byte{0x2f, 0xff, 0xf3, 0x80, 0}}, {packet.PktAudio, []byte{0x2f, 0xff, 0xfb, 0x9e, 0}}, {packet.PktAudio, []byte{0x2f, 0xff, 0xfb}}, {packet.PktAudio, []byte{0xbf, 1, 2, 3, 4}}}
			depth := pick(5, 6)
			var ss []*Scenario
			for _, w := range []struct {
				name string
				ops  []op
			}{{"aac", append(append([]op{}, video...), aacs...)}, {"mp3", append(append([]op{}, video...), mp3s...)}} {
				w := w
				ss = append(ss, &Scenario{Name: "histories-" + w.name, Note: fmt.Sprintf("every history of up to %d of %d packets", depth, len(w.ops)), Run: func(c *Ctx) {
					r := newRouteModel()
					n := 1 + c.Choose(depth)
					for i := 0; i < n; i++ {
						o := w.ops[c.Choose(len(w.ops))]
						r.step(c, o.pt, o.data)
						c.Step(1)
					}
					c.Eval(n)
				}})
				ss = append(ss, cyclic("very-long-"+w.name, "packets", pick(60000, 1000000), len(w.ops), func(c *Ctx) func(op, step int) {
					r := newRouteModel()
					return func(k, n int) { r.step(c, w.ops[k].pt, w.ops[k].data) }
				}))
			}
			ss = append(ss, chunked("routing", "every first byte x packet types -1..4 x second bytes 0,1,2", 256*6*3, 64, func(c *Ctx, i int) {
				first, pt, second := byte(i/18), i/3%6-1, byte(i%3)
				for k := 0; k < 2; k++ {
					r := newRouteModel()
					r.noMP3 = true
					if k == 1 {
						r.step(c, packet.PktVideo, vidData(true, true, 0, cfgB))
						r.step(c, packet.PktAudio, []byte{0xaf, 0, 0x13, 0x90})
					}
					media := nal(0x41, 5, 6)
					if pt == packet.PktVideo && second == 0 && first>>4 == 1 {
						media = cfgA
					}
					data := cat([]byte{first, second, 0, 0, 0}, media)
					if pt == packet.PktAudio {
						data = []byte{first, second, 0x12, 0x10, 0x55}
					}
					r.step(c, pt, data)
				}
				c.Step(2)
			}))
			ss = append(ss, chunked("aac-rates", "every ordered pair of the 13 AAC sample rates, with every object type 1..4 and channel count 0..7", 13*13*32, 64, func(c *Ctx, i int) {
				r := newRouteModel()
				for _, idx := range []int{i % 13, i / 13 % 13} {
					obj, ch := i/169%4+1, i/169/4
					r.step(c, packet.PktAudio, []byte{0xaf, 0, byte(obj<<3 | idx>>1), byte(idx<<7 | ch<<3)})
					r.step(c, packet.PktAudio, []byte{0xaf, 1, 1, 2})
				}
				c.Step(4)
			}))
			ss = append(ss, chunked("mp3-headers", "all second and third bytes of an MP3 frame header, after a frame of another rate", 65536, 256, func(c *Ctx, i int) {
				r := newRouteModel()
				r.step(c, packet.PktAudio, []byte{0x2f, 0xff, 0xfb, 0x94, 0})
				r.step(c, packet.PktAudio, []byte{0x2f, 0xff, byte(i >> 8), byte(i), 0x11})
				c.Step(2)
			}))
			return ss
		},
	})

	register(&Prop{
		ID: "P05", Level: "model_checking",
		Rule:        "Every packet content within the bounds goes through demuxing, codec parsing and TS mixing without panicking; every history containing refused packets is compared byte for byte with the same history without them. A state is a distinct TS output so far.",
		Assumptions: []string{"The time update for a refused audio packet is not called: advancing the audio clock is a separate operation"},
		Build: func(th bool) []*Scenario {
			var ss []*Scenario
			feed := func(c *Ctx, pt int, data []byte) {
				var w bytes.Buffer
				m := ts.NewMixer(&w)
				for k := 0; k < 2; k++ {
					if k == 1 { // again with both codecs initialised
						h, _ := demux(c, packet.PktVideo, vidData(true, true, 0, cfgA))
						c.Check(m.SaveAVCHeader(h) == nil, "header refused")
						h, _ = demux(c, packet.PktAudio, []byte{0xaf, 0, 0x12, 0x10})
						c.Check(m.SaveAACHeader(h) == nil, "header refused")
						w.Reset()
					}
					p := pkt(pt, append([]byte{}, data...))
					var err error
					if e := try(func() {
						err = flv.NewDemuxer().Demux(p)
						if err == nil {
							_ = m.Update(p, 1000, 40)
							err = m.Mux(p)
						}
					}); e != nil {
						c.Fail("packet type %d %s: panic: %v", pt, hx(data), e)
					}
					c.Check(err == nil || w.Len() == 0, "packet type %d %s is refused (%v) but %d bytes were written", pt, hx(data), err, w.Len())
					if e := try(func() { _ = m.SaveAVCHeader(p); _ = m.SaveAACHeader(p) }); e != nil && err == nil {
						c.Fail("saving packet type %d %s: panic: %v", pt, hx(data), e)
					}
				}
			}
			ss = append(ss, &Scenario{Name: "short-contents", Note: fmt.Sprintf("every packet of up to %d bytes (the last byte from 12 values in quick), types -1..4", pick(2, 3)), Run: func(c *Ctx) {
				pt := c.Choose(6) - 1
				n := c.Choose(pick(2, 3) + 1)
				b := make([]byte, n)
				for i := range b {
					b[i] = byte(c.Choose(256))
				}
				feed(c, pt, b)
				c.Eval(1)
				c.Outcome(b, pt)
			}})
			al := []byte{0, 1, 2, 5, 9, 0x65, 0xff}
			ss = append(ss, allBytes("video-bodies", "every AVC body over 7 byte values", al, pick(6, 7), pick(6, 7), func(c *Ctx, b []byte) {
				feed(c, packet.PktVideo, vidData(true, false, 0xffffd8, b))
			}))
			ss = append(ss, allBytes("video-headers", "every AVC sequence header body over 5 byte values after 4 fixed bytes", []byte{0, 1, 2, 0xe1, 0xff}, pick(7, 8), pick(7, 8), func(c *Ctx, b []byte) {
				feed(c, packet.PktVideo, vidData(true, true, 0, cat([]byte{1, 2, 3, 4, 5}, b)))
			}))
			ss = append(ss, allBytes("audio-bodies", "every AAC and MP3 body over 9 byte values", []byte{0, 1, 0x12, 0x10, 0x80, 0x17, 0x6c, 0x6e, 0xff}, pick(4, 5), pick(4, 5), func(c *Ctx, b []byte) {
				feed(c, packet.PktAudio, cat([]byte{0xaf}, b))
				feed(c, packet.PktAudio, cat([]byte{0x2f}, b))
			}))

			ss = append(ss, chunked("unit-sizes", fmt.Sprintf("key and inter frames with one unit of every size 1..%d, AAC and MP3 frames of every size", pick(1500, 9000)), pick(1500, 9000), 20, func(c *Ctx, i int) {
				u := repBytes(i+1, i)
				for _, t := range []byte{0x65, 0x41} {
					u[0] = t
					feed(c, packet.PktVideo, vidData(t == 0x65, false, 40*(i&1), nal(u...)))
					feed(c, packet.PktVideo, vidData(t == 0x65, false, 40*(i&1), cat(startCode4, u)))
				}
				feed(c, packet.PktAudio, cat([]byte{0xaf, 1}, u))
				feed(c, packet.PktAudio, cat([]byte{0x2f, 0xff, 0xfb, 0x90}, u))
				c.Outcome(i)
			}))
			type op struct {
				kind string // mux, avc, aac, table, tick
				pt   int
				data []byte
				bad  bool
			}
			ops := []op{
				{"avc", packet.PktVideo, vidData(true, true, 0, cfgA), false}, {"aac", packet.PktAudio, []byte{0xaf, 0, 0x12, 0x10}, false}, {"aac", packet.PktAudio, []byte{0xaf, 0, 0x11, 0x90}, false},
				{"mux", packet.PktVideo, vidData(true, false, 40, nal(cat([]byte{0x65}, repBytes(200, 1))...)), false}, {"mux", packet.PktVideo, vidData(false, false, 0, nal(0x41, 2)), false}, {"mux", packet.PktAudio, cat([]byte{0xaf, 1}, repBytes(40, 2)), false}, {"table", 0, nil, false},
				{"avc", packet.PktVideo, vidData(true, true, 0, cfgA[:10]), true}, {"avc", packet.PktVideo, vidData(true, true, 0, cat(cfgA[:4], []byte{0xfc}, cfgA[5:10])), true}, {"avc", packet.PktVideo, vidData(true, false, 0, nal(0x1f, 1)), true}, {"aac", packet.PktAudio, []byte{0xaf, 0, 0x17}, true}, {"aac", packet.PktAudio, []byte{0xaf, 0, 0x17, 0x90}, true},
				{"mux", packet.PktVideo, vidData(true, false, 0, cat(nal(0x67, 1), nal(0x65, 2), nal(0x0c, 3))), true}, {"mux", packet.PktVideo, vidData(false, false, 0, cat(nal(0x68, 1), nal(0x41, 2), []byte{0, 0, 0, 7, 1})), true}, {"mux", packet.PktVideo, vidData(true, true, 0, cfgB[:20]), true}, {"mux", packet.PktVideo, []byte{0x13, 1, 0, 0, 0, 5}, true},
				{"tick", packet.PktAudio, nil, false},
				{"mux", packet.PktAudio, []byte{0xaf, 1}, true}, {"mux", packet.PktAudio, cat([]byte{0xaf, 1}, repBytes(8185, 1)), true}, {"mux", packet.PktAudio, []byte{0xaf, 0, 0x17, 0x90}, true}, {"mux", packet.PktAudio, []byte{0xaf, 3, 1}, true}, {"mux", packet.PktAudio, []byte{0x3f, 3, 1}, true}, {"mux", packet.PktMetadata, []byte{2, 0, 1, 0x61}, true}, {"mux", 9, []byte{0x17, 1, 0, 0, 0, 5}, true},
			}
			hist := func(c *Ctx, n int, states bool, next func(i int) op) {
				var wa, wb bytes.Buffer
				ma, mb := ts.NewMixer(&wa), ts.NewMixer(&wb)
				now := uint32(100)
				do := func(m *ts.Mixer, o op) error {
					if o.kind == "table" {
						return m.SetTsHeader()
					}
					if o.kind == "tick" {
						return m.Update(pkt(o.pt, nil), now, 0)
					}
					p, err := demux(c, o.pt, o.data)
					if err != nil {
						return err
					}
					switch o.kind {
					case "avc":
						return m.SaveAVCHeader(p)
					case "aac":
						return m.SaveAACHeader(p)
					}
					if o.pt != packet.PktAudio || !o.bad {
						var ct int32
						if o.pt == packet.PktVideo {
							ct = p.Header.(packet.VideoPacketHeader).CompositionTime()
						}
						if err := m.Update(p, now, uint32(ct)); err != nil && o.pt == packet.PktAudio {
							return err
						}
					}
					return m.Mux(p)
				}
				probe := []op{ops[6], ops[3], ops[5], ops[2], ops[5], ops[6]}
				for i := 0; i < n+len(probe); i++ {
					var o op
					if i < n {
						o = next(i)
					} else {
						o = probe[i-n]
					}
					now += 23
					before := wa.Len()
					ea := do(ma, o)
					c.Step(1)
					if o.bad {
						c.Logf("%s type %d %s refused: %v", o.kind, o.pt, clip(hx(o.data), 30), ea)
						c.Check(ea != nil, "%s of packet type %d %s must be refused", o.kind, o.pt, hx(o.data))
						c.Check(wa.Len() == before, "%s of refused packet type %d %s wrote %d bytes", o.kind, o.pt, hx(o.data), wa.Len()-before)
						continue
					}
					eb := do(mb, o)
					c.Logf("%s type %d %s: %v, %d bytes", o.kind, o.pt, clip(hx(o.data), 30), ea, wa.Len()-before)
					c.Check((ea == nil) == (eb == nil), "%s of packet type %d %s: error %v, without the refused packets %v", o.kind, o.pt, hx(o.data), ea, eb)
					c.Check(bytes.Equal(wa.Bytes(), wb.Bytes()), "%s of packet type %d %s: the output differs from the one without the refused packets:\n%s\n%s", o.kind, o.pt, hx(o.data), hx(wa.Bytes()[before:]), hx(wb.Bytes()[min(before, wb.Len()):]))
					if states {
						c.State(wa.Bytes())
					}
				}
				c.Eval(1)
				c.Outcome(wa.Bytes())
			}
			depth := pick(4, 5)
			ss = append(ss, &Scenario{Name: "poisoning", Note: fmt.Sprintf("every history of up to %d of %d operations (15 of them refused), compared after every step with a mixer that is not shown the refused ones, then probed with tables, a key frame and an audio frame", depth, len(ops)), Run: func(c *Ctx) {
				n := 1 + c.Choose(depth)
				hist(c, n, true, func(int) op { return ops[c.Choose(len(ops))] })
			}})
			var bad []op
			for _, o := range ops {
				if o.bad {
					bad = append(bad, o)
				}
			}
			var streaks []int
			for n := 1; n <= 40; n++ {
				streaks = append(streaks, n)
			}
			streaks = append(streaks, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 512, 1000, 1025)
			ss = append(ss, chunked("streaks", fmt.Sprintf("streaks of %d lengths up to 1025 of each of the refused operations, of each ordered pair of them in turn and of all in turn, in the middle of a stream", len(streaks)), len(streaks)*(len(bad)*len(bad)+1), 16, func(c *Ctx, i int) {
				n, x := streaks[i%len(streaks)], i/len(streaks)
				lead := []op{ops[0], ops[1], ops[3], ops[5], ops[6]}
				if x < len(bad)*len(bad) && x/len(bad) != x%len(bad) && n > 40 {
					return
				}
				hist(c, len(lead)+n, false, func(i int) op {
					if i < len(lead) {
						return lead[i]
					}
					if x == len(bad)*len(bad) {
						return bad[i%len(bad)]
					}
					return bad[[]int{x / len(bad), x % len(bad)}[i%2]]
				})
				c.State(n, x)
			}))
			return ss
		},
	})
}

// aacJudge compares one step of an AAC parser with the model.
func aacJudge(c *Ctx, m *aacModel, b []byte, typ int, err error, out []byte) {
	switch {
	case len(b) == 0 || typ > 1:
		c.Check(err != nil && len(out) == 0, "type %d with %d bytes must be refused: error %v, %d bytes written", typ, len(b), err, len(out))
	case typ == 0:
		c.Check(len(out) == 0, "a sequence header wrote %d bytes", len(out))
		obj, idx, ch, in := aacInDomain(b)
		if in {
			c.Check(err == nil, "sequence header %s refused: %v", hx(b), err)
			m.known, m.obj, m.idx, m.ch = true, obj, idx, ch
		} else {
			c.Check(err != nil, "sequence header %s accepted (object type %d, rate index %d, channel configuration %d)", hx(b), obj, idx, ch)
		}
	default:
		if !m.known || len(b) > 8184 {
			c.Check(err != nil && len(out) == 0, "frame of %d bytes (header seen: %v) must be refused: error %v, %d bytes written", len(b), m.known, err, len(out))
			return
		}
		c.Check(err == nil, "frame of %d bytes: %v", len(b), err)
		if e := m.checkADTS(out, b); e != nil {
			c.Fail("frame of %d bytes: %v", len(b), e)
		}
	}
}

// routeModel drives one codec parser next to a model of its routing and state.
type routeModel struct {
	p     *parser.CodecParser
	h     h264Model
	a     aacModel
	mp3   int // sample rate of the latest MP3 frame
	noMP3 bool
	find  bool
}

func newRouteModel() *routeModel { return &routeModel{p: parser.NewCodecParser()} }

func (r *routeModel) step(c *Ctx, pt int, data []byte) {
	pk, derr := demux(c, pt, data)
	if derr != nil {
		bad := pt != packet.PktVideo && pt != packet.PktAudio && pt != packet.PktMetadata
		if pt == packet.PktAudio {
			bad = len(data) < 2 || (data[0]>>4 != 10 && data[0]>>4 != 2)
		}
		c.Check(bad, "demuxing type %d %s: %v", pt, hx(data), derr)
		return
	}
	var w bytes.Buffer
	err := r.p.Parse(pk, &w)
	c.Logf("type %d %s -> %s error %v", pt, clip(hx(data), 40), clip(hx(w.Bytes()), 40), err)
	what := fmt.Sprintf("packet type %d %s", pt, hx(data))
	switch {
	case pt == packet.PktVideo && data[0]&15 == 7 && (data[0]>>4 == 1 || data[0]>>4 == 2):
		hdr := data[0]>>4 == 1 && data[1] == 0
		want, ok := r.h.parse(data[5:], hdr)
		checkH264(c, err, w.Bytes(), want, ok, what)
	case pt == packet.PktVideo && data[0]&15 == 7: // other frame types: no stated layout
	case pt == packet.PktAudio && data[0]>>4 == 10:
		aacJudge(c, &r.a, data[2:], int(data[1]), err, w.Bytes())
	case pt == packet.PktAudio && data[0]>>4 == 2:
		if r.noMP3 { // mixed codecs: only routing is judged
			c.Check(err == nil || mp3FindingRate(data[1:]) == 0 || mp3Rate(data[1:]) == 0, "%s: %v", what, err)
			return
		}
		b := data[1:]
		if len(b) < 3 {
			c.Check(err != nil, "%s accepted", what)
			break
		}
		want := mp3Rate(b)
		got := 0
		if err == nil {
			var e error
			got, e = r.p.SampleRate()
			c.Check(e == nil, "%s: no sample rate: %v", what, e)
		}
		if got != want {
			if got != mp3FindingRate(b) {
				c.Fail("%s: reported sample rate %d (0: refused), the frame header codes %d", what, got, want)
			}
			c.Known("mp3-rate-bits", "%s: reported sample rate %d (0: refused), the frame header codes %d", what, got, want)
		}
		if got != 0 {
			r.mp3 = got
		}
	default:
		c.Check(err != nil && w.Len() == 0, "%s must be refused: error %v, %d bytes written", what, err, w.Len())
	}
	rate, e := r.p.SampleRate()
	switch {
	case r.a.known:
		c.Check(e == nil && rate == aacRateTable[r.a.idx], "after %s: sample rate %d (%v), the latest header announces %d", what, rate, e, aacRateTable[r.a.idx])
	case r.mp3 != 0:
		c.Check(e == nil && rate == r.mp3, "after %s: sample rate %d (%v), the latest frame has %d", what, rate, e, r.mp3)
	default:
		c.Check(e != nil, "after %s: sample rate %d although no audio was accepted", what, rate)
	}
	c.State(r.h.sets, r.a, r.mp3)
	c.Outcome(w.Bytes(), rate, err == nil)
}
