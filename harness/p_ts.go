package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/moggle-mog/goav/amf"
	"github.com/moggle-mog/goav/container/ts"
	"github.com/moggle-mog/goav/container/ts/table"
	"github.com/moggle-mog/goav/packet"
)

// tsKinds: the media kinds a muxer distinguishes.
type tsKind struct {
	name       string
	video, key bool
	ct         int64
}

var tsKinds = []tsKind{{"key frame", true, true, 0}, {"key frame with offset", true, true, 3600}, {"inter frame", true, false, 0}, {"inter frame with negative offset", true, false, -90}, {"audio", false, false, 0}, {"audio with offset", false, false, 77}}

// tsHeader demuxes a minimal packet of the kind; Media is then replaced.
func tsPacketOf(c *Ctx, k tsKind, media []byte) *packet.Packet {
	var p *packet.Packet
	if k.video {
		p = mustDemux(c, packet.PktVideo, vidData(k.key, false, 0, []byte{0, 0, 0, 1}))
	} else {
		p = mustDemux(c, packet.PktAudio, []byte{0xaf, 1, 0})
	}
	p.Media = media
	return p
}

func muxOne(c *Ctx, m *ts.Muxer, k tsKind, media []byte, dts int64, ccs map[int]int) []byte {
	p := tsPacketOf(c, k, media)
	keep := append([]byte{}, media...)
	var w bytes.Buffer
	err := m.Mux(p, dts, dts+k.ct, &w)
	what := fmt.Sprintf("%s of %d bytes", k.name, len(media))
	c.Check(err == nil, "%s: %v", what, err)
	checkUnit(c, w.Bytes(), tsUnit{k.video, k.key, dts + k.ct, dts, media}, ccs, what)
	c.Check(bytes.Equal(keep, media), "%s: the media was modified", what)
	return w.Bytes()
}

func init() {
	cfgA := avcc([]byte{0x67, 0x4d, 1, 2}, []byte{0x68, 0xee, 3})
	known := map[string]string{"small-keyframe-padding": ""}

	register(&Prop{
		ID: "T01", Level: "model_checking",
		Rule:        "Each execution muxes payloads with the real muxer and reads every written packet back with an independent TS/PES demuxer; a state is a distinct pair of lengths and kinds muxed in a row on one muxer.",
		Assumptions: []string{"Packet headers come from the FLV demuxer; payload bytes are a fixed pseudo-random pattern, plus constant patterns that imitate start codes, sync and padding bytes"},
		Findings:    known,
		Build: func(th bool) []*Scenario {
			var ss []*Scenario
			top := pick(6000, 70000)
			var ls []int
			for n := 0; n <= top; n++ {
				ls = append(ls, n)
			}
			if !th {
				for _, b := range []int{1 << 13, 1 << 14, 1 << 15, 65535 - 19, 65536, 1 << 17} {
					for d := -200; d <= 200; d++ {
						ls = append(ls, b+d)
					}
				}
			}
			for _, b := range []int{1 << 20, 1<<24 - 1} {
				for d := -3; d <= 3; d++ {
					ls = append(ls, b+d)
				}
			}
			ss = append(ss, chunked("lengths", fmt.Sprintf("%d payload lengths (0..%d and windows around larger powers of two) x 6 kinds of media packet", len(ls), top), len(ls), 16, func(c *Ctx, i int) {
				m := ts.NewMuxer()
				ccs := map[int]int{}
				media := repBytes(ls[i], i)
				for _, k := range tsKinds {
					muxOne(c, m, k, media, int64(i)*90, ccs)
					c.Step(1)
				}
				c.Outcome(ls[i])
			}))
			pl := []int{0, 1, 2, 100, 137, 146, 147, 155, 156, 157, 158, 160, 161, 162, 163, 164, 165, 166, 168, 169, 170, 171, 174, 180, 184, 185, 320, 340, 344, 345, 346, 347, 348, 349, 350, 353, 354, 355, 400, 700}
			ss = append(ss, cyclic("very-long", "packets", pick(150000, 3000000), len(tsKinds), func(c *Ctx) func(op, step int) {
				m := ts.NewMuxer()
				ccs := map[int]int{}
				return func(k, n int) { muxOne(c, m, tsKinds[k], []byte{1, byte(n)}, int64(n)*90, ccs) }
			}))
			ss = append(ss, &Scenario{Name: "large", Note: "payloads of a size around every power of two from 2^20 to 2^26, key frames, other frames and audio in turn", Run: func(c *Ctx) {
				buf := repBytes(1<<20, 5)
				for e := 20; e <= 26; e++ {
					for d := -1; d <= 1; d++ {
						media := make([]byte, 1<<e+d)
						for o := 0; o < len(media); o += len(buf) {
							copy(media[o:], buf)
						}
						muxOne(c, ts.NewMuxer(), tsKinds[(e+d+1)%len(tsKinds)], media, 9000, map[int]int{})
						c.Outcome(e*4 + d)
					}
				}
			}})
			ss = append(ss, &Scenario{Name: "pairs", Note: fmt.Sprintf("every pair of %d lengths x 6 kinds on one muxer", len(pl)), Run: func(c *Ctx) {
				m := ts.NewMuxer()
				ccs := map[int]int{}
				i, k := c.Choose(len(pl)), c.Choose(len(tsKinds))
				j, l := c.Choose(len(pl)), c.Choose(len(tsKinds))
				muxOne(c, m, tsKinds[k], repBytes(pl[i], 1), 90, ccs)
				b := muxOne(c, m, tsKinds[l], repBytes(pl[j], 2), 180, ccs)
				c.Step(2)
				c.State(pl[i], k, pl[j], l)
				c.Outcome(b)
			}})
			if th {
				all := 380
				ss = append(ss, chunked("all-pairs", "every pair of lengths 0..379 x 3 kinds each on one muxer", all*all*9, 2000, func(c *Ctx, x int) {
					kinds := []tsKind{tsKinds[0], tsKinds[3], tsKinds[4]}
					m := ts.NewMuxer()
					muxOne(c, m, kinds[x%3], repBytes(x/9/all, 1), 90, nil)
					muxOne(c, m, kinds[x/3%3], repBytes(x/9%all, 2), 180, nil)
				}))
			}
			pats := [][]byte{{0}, {0xff}, {0x47}, {0, 0, 1}, {0, 0, 1, 0xe0}, {0, 0, 0, 1, 9}, {0x47, 0x41, 0, 0x30, 7, 0x50}}
			ss = append(ss, chunked("contents", "payloads of 1..800 bytes made of 7 patterns imitating start codes, sync, padding and headers", 800*len(pats), 64, func(c *Ctx, i int) {
				media := bytes.Repeat(pats[i%len(pats)], 800)[:i/len(pats)+1]
				m := ts.NewMuxer()
				for _, k := range tsKinds {
					muxOne(c, m, k, media, 12345, nil)
				}
				c.Outcome(i)
				c.Step(6)
			}))
			ss = append(ss, chunked("other-types", "packet types -3..12 with every header kind", 16, 4, func(c *Ctx, i int) {
				for _, k := range tsKinds {
					p := tsPacketOf(c, k, []byte{1, 2, 3})
					p.Type = i - 3
					if p.Type == packet.PktVideo || p.Type == packet.PktAudio {
						continue
					}
					var w bytes.Buffer
					err := ts.NewMuxer().Mux(p, 1, 1, &w)
					c.Check(err != nil && w.Len() == 0, "packet type %d: error %v, %d bytes written", p.Type, err, w.Len())
				}
			}))
			return ss
		},
	})

	register(&Prop{
		ID: "T02", Level: "model_checking",
		Rule:        "Every history of operations within the bounds runs on one mixer (or muxer); after every operation the counters of all packets on the output are compared with the last ones seen per PID. A state is the vector of last counters plus what has been saved.",
		Assumptions: []string{"Writes succeed (a failed write leaves the stream cut short)", "The tables returned by direct calls are taken as written in call order"},
		Build: func(th bool) []*Scenario {
			var ss []*Scenario
			type op struct {
				name string
				do   func(c *Ctx, m *ts.Mixer) error
			}
			pktOp := func(name string, pt int, data []byte, f func(m *ts.Mixer, p *packet.Packet) error) op {
				return op{name, func(c *Ctx, m *ts.Mixer) error {
					p, err := demux(c, pt, data)
					if err != nil {
						return err
					}
					return f(m, p)
				}}
			}
			mux := func(m *ts.Mixer, p *packet.Packet) error { return m.Mux(p) }
			big := nal(cat([]byte{0x65}, repBytes(2900, 3))...)
			ops := []op{
				pktOp("key frame of 1 packet", packet.PktVideo, vidData(true, false, 0, nal(cat([]byte{0x65}, repBytes(60, 3))...)), mux),
				pktOp("inter frame of 2 packets", packet.PktVideo, vidData(false, false, 0, nal(cat([]byte{0x41}, repBytes(200, 3))...)), mux),
				pktOp("key frame of 17 packets", packet.PktVideo, vidData(true, false, 0, big), mux),
				pktOp("audio of 1 packet", packet.PktAudio, cat([]byte{0xaf, 1}, repBytes(30, 3)), mux),
				pktOp("audio of 3 packets", packet.PktAudio, cat([]byte{0xaf, 1}, repBytes(450, 3)), mux),
				{"tables", func(c *Ctx, m *ts.Mixer) error { return m.SetTsHeader() }},
				pktOp("save AVC header", packet.PktVideo, vidData(true, true, 0, cfgA), func(m *ts.Mixer, p *packet.Packet) error { return m.SaveAVCHeader(p) }),
				pktOp("save AAC header", packet.PktAudio, []byte{0xaf, 0, 0x12, 0x10}, func(m *ts.Mixer, p *packet.Packet) error { return m.SaveAACHeader(p) }),
				pktOp("save malformed AVC header", packet.PktVideo, vidData(true, true, 0, cfgA[:9]), func(m *ts.Mixer, p *packet.Packet) error { return m.SaveAVCHeader(p) }),
				pktOp("save malformed AAC header", packet.PktAudio, []byte{0xaf, 0, 0x17, 0x90}, func(m *ts.Mixer, p *packet.Packet) error { return m.SaveAACHeader(p) }),
				{"save metadata", func(c *Ctx, m *ts.Mixer) error {
					return m.SaveMetadata(amf.Object{"Provider": "p", "Service": "s"})
				}},
				{"save too long metadata", func(c *Ctx, m *ts.Mixer) error { return m.SaveMetadata(amf.Object{"Provider": rep(200)}) }},
				pktOp("mux AVC header", packet.PktVideo, vidData(true, true, 0, cfgA), mux),
				pktOp("mux AAC header", packet.PktAudio, []byte{0xaf, 0, 0x12, 0x10}, mux),
				pktOp("mux refused video", packet.PktVideo, vidData(true, false, 0, nal(0x1f, 1)), mux),
				pktOp("mux refused audio", packet.PktAudio, []byte{0xaf, 1}, mux),
				pktOp("save a key frame as AVC header", packet.PktVideo, vidData(true, false, 0, big), func(m *ts.Mixer, p *packet.Packet) error { return m.SaveAVCHeader(p) }),
				{"update", func(c *Ctx, m *ts.Mixer) error {
					return m.Update(pkt(packet.PktVideo, nil), 1000, 40)
				}},
			}
			counters := func(c *Ctx, out []byte, ccs map[int]int, what string) {
				pk, err := readTs(out)
				c.Check(err == nil, "%s: %v", what, err)
				for _, p := range pk {
					c.Check(p.hasPayload, "%s: a packet without payload", what)
					if last, ok := ccs[p.pid]; ok {
						c.Check(p.cc == (last+1)&15, "%s: continuity counter %d after %d on PID %x", what, p.cc, last, p.pid)
					}
					ccs[p.pid] = p.cc
				}
			}
			depth := pick(4, 5)
			ss = append(ss, &Scenario{Name: "histories", Note: fmt.Sprintf("every history of up to %d of %d mixer operations, then every stream once more", depth, len(ops)), Run: func(c *Ctx) {
				var w bytes.Buffer
				m := ts.NewMixer(&w)
				ccs := map[int]int{}
				n := 1 + c.Choose(depth)
				for i := 0; i < n+3; i++ {
					k := []int{5, 1, 3}[max(0, min(2, i-n))]
					if i < n {
						k = c.Choose(len(ops))
					}
					w.Reset()
					err := ops[k].do(c, m)
					c.Logf("%s: %d bytes, error %v", ops[k].name, w.Len(), err)
					counters(c, w.Bytes(), ccs, ops[k].name)
					c.Step(1)
					c.State(fmt.Sprint(ccs))
				}
				c.Eval(1)
				c.Outcome(fmt.Sprint(ccs))
			}})
			ss = append(ss, chunked("long-runs", "for every ordered pair of operations: 40 times the first with the second inserted after every k-th, k=1..5, from every starting phase", len(ops)*len(ops)*5*16, 128, func(c *Ctx, i int) {
				a, b, k, ph := i%len(ops), i/len(ops)%len(ops), i/len(ops)/len(ops)%5+1, i/len(ops)/len(ops)/5
				var w bytes.Buffer
				m := ts.NewMixer(&w)
				ccs := map[int]int{}
				_ = ops[7].do(c, m)
				for x := 0; x < ph; x++ {
					for _, o := range []int{1, 3, 5} {
						_ = ops[o].do(c, m)
					}
				}
				for x := 1; x <= 40; x++ {
					_ = ops[a].do(c, m)
					if x%k == 0 {
						_ = ops[b].do(c, m)
					}
				}
				for _, o := range []int{1, 3, 5} {
					_ = ops[o].do(c, m)
				}
				counters(c, w.Bytes(), ccs, fmt.Sprintf("%s x40 with %s after every %d", ops[a].name, ops[b].name, k))
				c.State(fmt.Sprint(ccs))
				c.Step(50)
			}))
			large := []op{
				pktOp("key frame of 70000 bytes", packet.PktVideo, vidData(true, false, 0, nal(cat([]byte{0x65}, repBytes(70000, 3))...)), mux),
				pktOp("inter frame of 70016 bytes", packet.PktVideo, vidData(false, false, 40, nal(cat([]byte{0x41}, repBytes(70016, 3))...)), mux),
				pktOp("inter frame of 65500 bytes", packet.PktVideo, vidData(false, false, 0, nal(cat([]byte{0x41}, repBytes(65500, 3))...)), mux),
				pktOp("audio of 8184 bytes", packet.PktAudio, cat([]byte{0xaf, 1}, repBytes(8184, 3)), mux),
				ops[1], ops[3], ops[5],
			}
			ss = append(ss, &Scenario{Name: "large-units", Note: fmt.Sprintf("every history of %d operations among units of more than 65535 bytes, the largest audio frame, small units and tables", pick(4, 5)), Run: func(c *Ctx) {
				var w bytes.Buffer
				m := ts.NewMixer(&w)
				ccs := map[int]int{}
				_ = ops[7].do(c, m)
				for i := 0; i < pick(4, 5); i++ {
					o := large[c.Choose(len(large))]
					w.Reset()
					c.Check(o.do(c, m) == nil, "%s failed", o.name)
					c.Logf("%s: %d bytes", o.name, w.Len())
					counters(c, w.Bytes(), ccs, o.name)
					c.Step(1)
					c.State(fmt.Sprint(ccs))
				}
				c.Eval(1)
			}})
			ss = append(ss, chunked("very-long", fmt.Sprintf("%d units or tables of one kind in a row on one muxer, or of all in turn", pick(270000, 4000000)), 6, 1, func(c *Ctx, i int) {
				m := ts.NewMuxer()
				ccs := map[int]int{}
				for n := 0; n < pick(270000, 4000000); n++ {
					k := i
					if i == 5 {
						k = n % 5
					}
					switch k {
					case 0:
						muxOne(c, m, tsKinds[2], []byte{1, 2, 3}, int64(n), ccs)
					case 1:
						muxOne(c, m, tsKinds[4], []byte{4, 5}, int64(n), ccs)
					case 2:
						counters(c, m.PAT(), ccs, "PAT")
					case 3:
						counters(c, m.PMT(packet.PktVideo), ccs, "PMT")
					case 4:
						counters(c, m.SDT(&bytes.Buffer{}), ccs, "SDT")
					}
				}
				c.Step(270000)
				c.State(fmt.Sprint(ccs))
				c.Outcome(i)
			}))
			ss = append(ss, &Scenario{Name: "muxer", Note: fmt.Sprintf("every history of up to %d direct muxer calls (media of 1 and 17 packets, three tables), after 0..17 warm-up rounds", pick(5, 6)), Run: func(c *Ctx) {
				m := ts.NewMuxer()
				ccs := map[int]int{}
				do := func(k int) {
					switch k {
					case 0:
						muxOne(c, m, tsKinds[2], repBytes(20, 1), 0, ccs)
					case 1:
						muxOne(c, m, tsKinds[4], repBytes(3000, 1), 0, ccs)
					case 2:
						counters(c, m.PAT(), ccs, "PAT")
					case 3:
						counters(c, m.PMT(packet.PktVideo), ccs, "PMT")
					case 4:
						counters(c, m.SDT(&bytes.Buffer{}), ccs, "SDT")
					case 5:
						p := tsPacketOf(c, tsKinds[2], []byte{1})
						p.Type = packet.PktMetadata
						_ = m.Mux(p, 0, 0, io.Discard)
					}
				}
				warm := c.Choose(18)
				for i := 0; i < warm; i++ {
					for k := 0; k < 5; k++ {
						if k != 1 {
							do(k)
						}
					}
				}
				n := 1 + c.Choose(pick(5, 6))
				for i := 0; i < n; i++ {
					do(c.Choose(6))
					c.Step(1)
					c.State(fmt.Sprint(ccs))
				}
				c.Eval(1)
				c.Outcome(fmt.Sprint(ccs))
			}})
			return ss
		},
	})

	stamps := func(th bool) []int64 {
		var v []int64
		v = append(v, 0, 1, -1)
		for b := 0; b <= 36; b++ {
			for d := int64(-2); d <= 2; d++ {
				v = append(v, int64(1)<<uint(b)+d, -(int64(1)<<uint(b))+d)
			}
		}
		for b := 0; b < 33; b++ {
			v = append(v, 1<<33-1-int64(1)<<uint(b))
			for a := 0; a < b; a++ {
				v = append(v, int64(1)<<uint(a)|int64(1)<<uint(b))
			}
		}
		v = append(v, 0x155555555, 0x0aaaaaaaa, 4294967295*90, 4294967294*90, 2147483647*90, 2147483648*90, 1<<62, -(1 << 62), 1<<63-1, -(1 << 63))
		return v
	}
	register(&Prop{
		ID: "T03", Level: "exploration",
		Rule:        "Each evaluation muxes one packet with the real code and decodes PTS, DTS and PCR bit by bit independently, comparing them with the requested times modulo 2^33.",
		Assumptions: []string{"A decode time that differs from the presentation time by a multiple of 2^33 may be left out"},
		Build: func(th bool) []*Scenario {
			vs := stamps(th)
			var ss []*Scenario
			one := func(c *Ctx, dts, pts int64) {
				for _, k := range []int{0, 2, 4} {
					k := tsKinds[k]
					k.ct = pts - dts
					p := tsPacketOf(c, k, repBytes(200, 1))
					var w bytes.Buffer
					err := ts.NewMuxer().Mux(p, dts, pts, &w)
					c.Check(err == nil, "%v", err)
					checkUnit(c, w.Bytes(), tsUnit{k.video, k.key, pts, dts, p.Media}, nil, fmt.Sprintf("%s dts %d pts %d", k.name, dts, pts))
				}
			}
			ss = append(ss, chunked("stamp-pairs", fmt.Sprintf("every pair (decode, presentation) of %d stamps: all one- and two-bit values below 2^33, neighbours of all powers of two up to 2^36, negative ones and extremes, x key, inter and audio", len(vs)), len(vs)*len(vs), 1024, func(c *Ctx, i int) {
				one(c, vs[i%len(vs)], vs[i/len(vs)])
				c.Outcome(i)
			}))
			n := pick(1<<17, 1<<21)
			ss = append(ss, chunked("stamp-groups", fmt.Sprintf("all values of each bit group: low 15, middle 15 and top 6 bits (%d values each) over two backgrounds, presentation time equal and off by one", n/8), n, 1024, func(c *Ctx, i int) {
				x := int64(i >> 3)
				switch i >> 1 & 3 {
				case 0:
				case 1:
					x <<= 15
				case 2:
					x <<= 18
				case 3:
					x = x<<4 ^ 0x155555555
				}
				one(c, x, x+int64(i&1))
			}))
			hs := []int64{0, 90, 1<<32 + 7, 1<<33 - 1, 1 << 33}
			ss = append(ss, &Scenario{Name: "muxer-histories", Note: fmt.Sprintf("every sequence of 1..%d packets on one muxer over 6 kinds x %d stamps", pick(3, 4), len(hs)), Run: func(c *Ctx) {
				m := ts.NewMuxer()
				ccs := map[int]int{}
				n := 1 + c.Choose(pick(3, 4))
				for i := 0; i < n; i++ {
					x := c.Choose(len(tsKinds) * len(hs))
					muxOne(c, m, tsKinds[x%len(tsKinds)], repBytes(200, i), hs[x/len(tsKinds)], ccs)
					c.Step(1)
					c.State(i, x)
				}
				c.Eval(1)
				c.Outcome(n)
			}})
			tv := []uint32{0, 1, 2, 3, 9, 10, 11, 100, 32767, 32768, 1 << 24, 95443716, 95443717, 95443718, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1}
			for b := 3; b < 32; b++ {
				tv = append(tv, 1<<uint(b)-1, 1<<uint(b)+1)
			}
			cv := []int32{0, 1, -1, 2, -2, 40, -40, 127, 128, -128, -129, 32767, -32768, 32768, 1<<23 - 1, -(1 << 23), 1<<22 + 1}
			ss = append(ss, chunked("mixer-times", fmt.Sprintf("%d packet times x %d composition times through the mixer, twice in a row", len(tv), len(cv)), len(tv)*len(cv), 32, func(c *Ctx, i int) {
				t, ct := tv[i%len(tv)], cv[i/len(tv)]
				var w bytes.Buffer
				m := ts.NewMixer(&w)
				for k := 0; k < 2; k++ {
					for _, key := range []bool{true, false} {
						b := nal(cat([]byte{0x65}, repBytes(300, 1))...)
						p := mustDemux(c, packet.PktVideo, vidData(key, false, int(ct)&0xffffff, b))
						got := p.Header.(packet.VideoPacketHeader).CompositionTime()
						c.Check(m.Update(p, t, uint32(got)) == nil, "update failed")
						w.Reset()
						err := m.Mux(p)
						c.Check(err == nil, "%v", err)
						dts := int64(t) * 90
						checkUnit(c, w.Bytes(), tsUnit{true, key, dts + int64(ct)*90, dts, cat(startCode4, []byte{9, 0xf0}, startCode4, b[4:])}, nil, fmt.Sprintf("packet time %d ms, composition time %d ms", t, ct))
					}
				}
				c.Outcome(i)
			}))
			return ss
		},
	})

	register(&Prop{
		ID: "T04", Level: "model_checking",
		Rule:        "Every history of saved headers and descriptions is run on the real mixer; after every step the tables are requested and decoded by an independent section reader and compared with the model. A state is a distinct model state.",
		Findings:    map[string]string{"pcr-pid-audio": "", "audio-only-no-pcr": ""},
		Assumptions: []string{"A missing or non-text provider or service name is described as \"undefined\""},
		Build: func(th bool) []*Scenario {
			var ss []*Scenario
			type op struct {
				name string
				do   func(c *Ctx, m *ts.Mixer) error
				ok   bool
				mod  func(t *tableModel)
			}
			save := func(name string, pt int, data []byte, avc, ok bool, mod func(t *tableModel)) op {
				return op{name, func(c *Ctx, m *ts.Mixer) error {
					p, err := demux(c, pt, data)
					if err != nil {
						return err
					}
					if avc {
						return m.SaveAVCHeader(p)
					}
					return m.SaveAACHeader(p)
				}, ok, mod}
			}
			meta := func(name string, md amf.Object, ok bool, prov, serv string) op {
				return op{name, func(c *Ctx, m *ts.Mixer) error { return m.SaveMetadata(md) }, ok, func(t *tableModel) { t.descr, t.prov, t.serv = true, prov, serv }}
			}
			v := func(t *tableModel) { t.video = true }
			a := func(t *tableModel) { t.audio = true }
			ops := []op{
				save("AVC header", packet.PktVideo, vidData(true, true, 0, cfgA), true, true, v),
				save("AAC header", packet.PktAudio, []byte{0xaf, 0, 0x12, 0x10}, false, true, a),
				save("other AAC header", packet.PktAudio, []byte{0xaf, 0, 0x11, 0x90}, false, true, a),
				save("malformed AVC header", packet.PktVideo, vidData(true, true, 0, cfgA[:9]), true, false, nil),
				save("malformed AAC header", packet.PktAudio, []byte{0xaf, 0, 0x17, 0x90}, false, false, nil),
				save("unsupported codec", packet.PktVideo, vidData(true, true, 0, nil)[:1], true, false, nil),
				meta("names", amf.Object{"Provider": "goav", "Service": "live"}, true, "goav", "live"),
				meta("empty names", amf.Object{"Provider": "", "Service": ""}, true, "", ""),
				meta("no names", amf.Object{}, true, "undefined", "undefined"),
				meta("names of the wrong type", amf.Object{"Provider": 1.0, "Service": nil}, true, "undefined", "undefined"),
				meta("longest names", amf.Object{"Provider": rep(100), "Service": rep(58)}, true, rep(100), rep(58)),
				meta("names one too long", amf.Object{"Provider": rep(100), "Service": rep(59)}, false, "", ""),
				meta("name of 300 bytes", amf.Object{"Service": rep(300)}, false, "", ""),
				{"key frame", func(c *Ctx, m *ts.Mixer) error {
					return m.Mux(mustDemux(c, packet.PktVideo, vidData(true, false, 0, nal(cat([]byte{0x65}, repBytes(300, 1))...))))
				}, true, func(*tableModel) {}},
				{"AAC header muxed", func(c *Ctx, m *ts.Mixer) error {
					return m.Mux(mustDemux(c, packet.PktAudio, []byte{0xaf, 0, 0x12, 0x10}))
				}, true, func(*tableModel) {}},
				{"AAC header and two frames muxed", func(c *Ctx, m *ts.Mixer) error {
					var err error
					for _, d := range [][]byte{{0xaf, 0, 0x12, 0x10}, {0xaf, 1, 1, 2}, cat([]byte{0xaf, 1}, repBytes(300, 3))} {
						if e := m.Mux(mustDemux(c, packet.PktAudio, d)); e != nil {
							err = e
						}
					}
					return err
				}, true, func(*tableModel) {}},
				{"other frame", func(c *Ctx, m *ts.Mixer) error {
					return m.Mux(mustDemux(c, packet.PktVideo, vidData(false, false, 0, nal(0x41, 2, 3))))
				}, true, func(*tableModel) {}},
				meta("nil metadata", nil, true, "undefined", "undefined"),
			}
			depth := pick(4, 5)
			ss = append(ss, &Scenario{Name: "histories", Note: fmt.Sprintf("every history of up to %d of %d operations, tables requested before and after every step", depth, len(ops)), Run: func(c *Ctx) {
				var w bytes.Buffer
				m := ts.NewMixer(&w)
				t := &tableModel{}
				ccs := map[int]int{}
				n := c.Choose(depth + 1)
				for i := 0; i <= n; i++ {
					if i > 0 {
						o := ops[c.Choose(len(ops))]
						err := o.do(c, m)
						c.Logf("%s: %v", o.name, err)
						c.Check((err == nil) == o.ok, "%s: error %v, must be accepted %v", o.name, err, o.ok)
						if o.ok {
							o.mod(t)
						}
					}
					w.Reset()
					err := m.SetTsHeader()
					c.Check(err == nil, "tables: %v", err)
					t.check(c, w.Bytes(), ccs)
					c.Step(1)
					c.State(*t)
					if i == n {
						c.Outcome(w.Bytes())
					}
				}
				c.Eval(n + 1)
			}})
			ss = append(ss, cyclic("very-long", "operations with the tables after each", pick(60000, 1000000), len(ops), func(c *Ctx) func(op, step int) {
				var w bytes.Buffer
				m := ts.NewMixer(&w)
				t := &tableModel{}
				ccs := map[int]int{}
				return func(k, n int) {
					o := ops[k]
					err := o.do(c, m)
					c.Check((err == nil) == o.ok, "%s: error %v, must be accepted %v", o.name, err, o.ok)
					if o.ok {
						o.mod(t)
					}
					w.Reset()
					c.Check(m.SetTsHeader() == nil, "tables failed")
					t.check(c, w.Bytes(), ccs)
				}
			}))
			const top = 260
			ss = append(ss, chunked("name-lengths", "every pair of provider and service name lengths 0..259, after a valid description", top*top, 512, func(c *Ctx, i int) {
				p, s := i/top, i%top
				var w bytes.Buffer
				m := ts.NewMixer(&w)
				t := &tableModel{}
				c.Check(m.SaveMetadata(amf.Object{"Provider": "a", "Service": "b"}) == nil, "description refused")
				t.descr, t.prov, t.serv = true, "a", "b"
				err := m.SaveMetadata(amf.Object{"Provider": rep(p), "Service": rep(s)})
				if fits := p+s <= 158; fits {
					c.Check(err == nil, "names of %d and %d bytes fit the packet but are refused: %v", p, s, err)
					t.prov, t.serv = rep(p), rep(s)
				} else {
					c.Check(err != nil, "names of %d and %d bytes do not fit one packet but are accepted", p, s)
				}
				for k := 0; k < 2; k++ {
					w.Reset()
					c.Check(m.SetTsHeader() == nil, "tables failed")
					t.check(c, w.Bytes(), nil)
				}
				c.State(t.prov, t.serv)
				c.Step(2)
			}))
			ss = append(ss, chunked("name-bytes", "every byte value as provider and service name, alone and inside a text, and UTF-8 names", 256*2+4, 32, func(c *Ctx, i int) {
				p, s := string([]byte{byte(i)}), "x"+string([]byte{byte(i)})+"y"
				if i >= 256 {
					p, s = s, p
				}
				if i >= 512 {
					p, s = "直播", []string{"é", "\x00\x00\x01", "\xff\xff", "\x48\x03\x01\x00\x00"}[i-512]
				}
				var w bytes.Buffer
				m := ts.NewMixer(&w)
				c.Check(m.SaveMetadata(amf.Object{"Provider": p, "Service": s}) == nil, "description refused")
				c.Check(m.SetTsHeader() == nil, "tables failed")
				(&tableModel{descr: true, prov: p, serv: s}).check(c, w.Bytes(), nil)
				c.State(p, s)
			}))
			ss = append(ss, chunked("name-contents", fmt.Sprintf("names of every length 0..160 made of %d contents (multi-byte and invalid UTF-8, zero bytes, spaces, tags), next to short ones", len(nameFills)), 161*len(nameFills), 32, func(c *Ctx, i int) {
				x := fillName(nameFills[i/161], i%161)
				for k, names := range [][2]string{{x, "é"}, {" ", x}, {x[:len(x)/2], x[len(x)/2:]}} {
					var w bytes.Buffer
					m := ts.NewMixer(&w)
					t := &tableModel{descr: true, prov: names[0], serv: names[1]}
					err := m.SaveMetadata(amf.Object{"Provider": names[0], "Service": names[1]})
					if len(names[0])+len(names[1]) > 158 {
						c.Check(err != nil, "names %q do not fit one packet but are accepted", names)
						continue
					}
					c.Check(err == nil, "names %q refused: %v", names, err)
					c.Check(m.SetTsHeader() == nil, "tables failed")
					t.check(c, w.Bytes(), nil)
					c.State(k, names)
				}
			}))
			ss = append(ss, chunked("description-words", fmt.Sprintf("each of %d well-known names as provider, as service, and as one more key of the description with 9 values", len(words)), len(words)*11, 32, func(c *Ctx, i int) {
				t := words[i/11]
				md := amf.Object{"Provider": "p", "Service": "s"}
				switch k := i % 11; k {
				case 0:
					md["Provider"] = t
				case 1:
					md["Service"] = t
				default:
					if t != "Provider" && t != "Service" {
						md[t] = wordValues(t)[k-2].v
					}
				}
				var w bytes.Buffer
				m := ts.NewMixer(&w)
				c.Check(m.SaveMetadata(md) == nil, "description refused")
				c.Check(m.SetTsHeader() == nil, "tables failed")
				(&tableModel{descr: true, prov: md["Provider"].(string), serv: md["Service"].(string)}).check(c, w.Bytes(), nil)
				c.State(t, i%11)
			}))
			kinds := []int{packet.PktVideo, packet.PktAudio}
			ss = append(ss, chunked("direct-tables", "direct program map requests for every order of the media kinds, 40 requests in a row, and service descriptions of 0..163 bytes", 5*41+164, 16, func(c *Ctx, i int) {
				m := ts.NewMuxer()
				if i >= 5*41 {
					n := i - 5*41
					ds := []byte{}
					if n >= 2 {
						ds = cat([]byte{0x48, byte(n - 2)}, repBytes(n-2, 1))
					}
					for k := 0; k < 2; k++ {
						s, err := readSection(append([]byte{}, m.SDT(bytes.NewBuffer(append([]byte{}, ds...)))...))
						c.Check(err == nil, "description of %d bytes: %v", n, err)
						c.Check(s.pid == 0x11 && s.table == 0x42 && len(s.body) == 8+len(ds) && bytes.Equal(s.body[8:], ds) && int(s.body[6]&15)<<8|int(s.body[7]) == len(ds), "description %s became %s", hx(ds), hx(s.body))
					}
					return
				}
				var arg []int
				var want []stream
				for _, k := range [][]int{{}, {0}, {1}, {0, 1}, {1, 0}}[i/41] {
					arg = append(arg, kinds[k])
					want = append(want, []stream{{0x1b, 0x100}, {0x0f, 0x101}}[k])
				}
				ccs := map[int]int{}
				for k := 0; k < i%41; k++ {
					m.PMT(arg...)
				}
				if i%41 > 0 {
					ccs[0x1001] = (i%41 - 1) & 15
				}
				b := append([]byte{}, m.PMT(arg...)...)
				checkPMT(c, b, 0x1001, 1, want, nil)
				s, err := readSection(append([]byte{}, m.PAT()...))
				c.Check(err == nil && s.pid == 0 && s.table == 0 && bytes.Equal(s.body, []byte{0, 1, 0xf0, 1}), "program association: %v %s", err, hx(s.body))
			}))
			ss = append(ss, &Scenario{Name: "direct-histories", Note: fmt.Sprintf("every sequence of 1..%d program map requests on one muxer over none, video, audio and both in either order, next to an association and a description", pick(5, 7)), Run: func(c *Ctx) {
				m := ts.NewMuxer()
				ccs := map[int]int{}
				n := 1 + c.Choose(pick(5, 7))
				for i := 0; i < n; i++ {
					var arg []int
					var want []stream
					x := c.Choose(5)
					for _, k := range [][]int{{}, {0}, {1}, {0, 1}, {1, 0}}[x] {
						arg = append(arg, kinds[k])
						want = append(want, []stream{{0x1b, 0x100}, {0x0f, 0x101}}[k])
					}
					checkPMT(c, append([]byte{}, m.PMT(arg...)...), 0x1001, 1, want, ccs)
					s, err := readSection(append([]byte{}, m.PAT()...))
					c.Check(err == nil && s.pid == 0 && s.table == 0 && bytes.Equal(s.body, []byte{0, 1, 0xf0, 1}), "program association: %v %s", err, hx(s.body))
					d := cat([]byte{0x48, byte(x)}, repBytes(x, 1))
					s, err = readSection(append([]byte{}, m.SDT(bytes.NewBuffer(append([]byte{}, d...)))...))
					c.Check(err == nil && s.pid == 0x11 && s.table == 0x42 && len(s.body) == 8+len(d) && bytes.Equal(s.body[8:], d), "description %s became %s (%v)", hx(d), hx(s.body), err)
					c.Step(1)
					c.State(i, x)
				}
				c.Eval(1)
				c.Outcome(n)
			}})
			return ss
		},
	})

	register(&Prop{
		ID: "T05", Level: "exploration",
		Rule: "Each evaluation compares the real checksum of one byte string with a bit-by-bit MPEG-2 CRC-32, and checks that string plus checksum has checksum zero.",
		Build: func(th bool) []*Scenario {
			judge := func(c *Ctx, b []byte) {
				keep := append([]byte{}, b...)
				got := ts.GenerateCrc32(b)
				want := crcRef(b)
				c.Check(got == want, "checksum of %s is %08x, want %08x", hx(b), got, want)
				c.Check(ts.GenerateCrc32(cat(b, be32(int(want)))) == 0, "checksum of %s followed by its checksum is not zero", hx(b))
				c.Check(bytes.Equal(b, keep), "the input was modified")
			}
			var ss []*Scenario
			ss = append(ss, allBytes("short-strings", fmt.Sprintf("every byte string of up to %d bytes", 3), every256(), 3, 2, func(c *Ctx, b []byte) { judge(c, b) }))
			ss = append(ss, chunked("lengths", fmt.Sprintf("strings of every length 0..%d, four patterns", pick(3000, 20000)), 4*pick(3001, 20001), 16, func(c *Ctx, i int) {
				b := repBytes(i/4, i)
				for k := range b {
					switch i % 4 {
					case 1:
						b[k] = 0
					case 2:
						b[k] = 0xff
					case 3:
						b[k] = byte(k)
					}
				}
				judge(c, b)
				c.Outcome(i)
			}))
			ss = append(ss, chunked("single-bits", "every single-bit change of section-like strings of 1..188 bytes (checksum is linear in them)", 188, 2, func(c *Ctx, i int) {
				b := repBytes(i+1, 7)
				for k := 0; k < 8*len(b); k++ {
					b[k/8] ^= 1 << uint(k%8)
					judge(c, b)
					b[k/8] ^= 1 << uint(k%8)
				}
				c.Eval(8 * len(b))
				c.Outcome(i)
			}))
			ss = append(ss, chunked("very-long", "strings of lengths around every power of two from 2^19 to 2^25", 7*3, 1, func(c *Ctx, i int) {
				b := make([]byte, 1<<uint(19+i/3)+i%3-1)
				for k, p := 0, repBytes(1<<16, i); k < len(b); k += len(p) {
					copy(b[k:], p)
				}
				judge(c, b)
				c.Outcome(i)
			}))
			ss = append(ss, chunked("long", "strings of lengths around every power of two from 2^12 to 2^18, three patterns", 7*9*3, 1, func(c *Ctx, i int) {
				b := repBytes(1<<uint(12+i/27)+i/3%9-4, i)
				if i%3 == 1 {
					for k := range b {
						b[k] = 0
					}
				} else if i%3 == 2 {
					for k := range b {
						b[k] = byte(k >> 8)
					}
				}
				judge(c, b)
				c.Outcome(i)
			}))
			if th {
				ss = append(ss, chunked("four-bytes", "every 4-byte string over 48 byte values", 48*48*48*48, 4096, func(c *Ctx, i int) {
					b := make([]byte, 4)
					for k := range b {
						v := i % 48
						i /= 48
						b[k] = byte(v * 85 / 16)
					}
					judge(c, b)
				}))
			}
			return ss
		},
	})

	register(&Prop{
		ID: "T06", Level: "model_checking",
		Rule:        "Every history of audio and video packet times chosen around the cadence window is run through the real mixer; output times are read from the written stream and compared with an independent cadence model. A state is a distinct (offset from cadence, rate, position) of the model.",
		Assumptions: []string{"The first packet may open the cadence at time zero or at its own time when both are within 10 ms", "The packet right after a sample-rate change may follow by either frame length", "Each audio packet is updated once and then muxed"},
		Build: func(th bool) []*Scenario {
			var ss []*Scenario
			type rig struct {
				w    *bytes.Buffer
				m    *ts.Mixer
				k    cadence
				rate int
				n    int
			}
			newRig := func(c *Ctx, idx int) *rig {
				r := &rig{w: &bytes.Buffer{}}
				r.m = ts.NewMixer(r.w)
				r.rate = aacRateTable[idx]
				c.Check(r.m.SaveAACHeader(mustDemux(c, packet.PktAudio, aacHeaderBytes(idx))) == nil, "header refused")
				return r
			}
			audio := func(c *Ctx, r *rig, t uint32) int64 {
				p := mustDemux(c, packet.PktAudio, []byte{0xaf, 1, 9, 9, 9})
				// audio has no composition offset: whatever stands there is not used
				r.n++
				p.TimeStamp, p.Baseline = t+uint32(r.n), uint32(r.n)
				err := r.m.Update(p, t, uint32([]int32{0, 40, -40, 0, 8388607}[r.n%5]))
				c.Check(err == nil, "update: %v", err)
				r.w.Reset()
				c.Check(r.m.Mux(p) == nil, "mux failed")
				pk, err := readTs(r.w.Bytes())
				c.Check(err == nil && len(pk) == 1, "%d packets, %v", len(pk), err)
				u, err := readPes(pk[0].payload)
				c.Check(err == nil && u.hasPTS && !u.hasDTS, "%v", err)
				src := int64(t) * 90
				out := r.k.step(c, src, r.rate, u.pts, fmt.Sprintf("audio packet at %d ms, %d Hz", t, r.rate))
				d := out - src
				c.Check(d >= -900 && d <= 900, "audio packet at %d ms: output %d is %d ticks away", t, out, d)
				c.Step(1)
				c.State(d, r.rate)
				return out
			}
			video := func(c *Ctx, r *rig, t uint32, ct int) {
				p := mustDemux(c, packet.PktVideo, vidData(false, false, ct&0xffffff, nal(0x41, 1, 2, 3)))
				c.Check(r.m.Update(p, t, uint32(int32(ct))) == nil, "update failed")
				r.w.Reset()
				c.Check(r.m.Mux(p) == nil, "mux failed")
				dts := int64(t) * 90
				checkUnit(c, r.w.Bytes(), tsUnit{true, false, dts + int64(ct)*90, dts, cat(startCode4, []byte{9, 0xf0}, startCode4, []byte{0x41, 1, 2, 3})}, nil, fmt.Sprintf("video packet at %d ms offset %d", t, ct))
				c.Step(1)
			}
			starts := []uint32{0, 9, 10, 11, 1000, 1 << 31, 1<<32 - 30}
			rates := []int{4, 3, 11, 0, 12}
			depth := pick(5, 6)
			ss = append(ss, &Scenario{Name: "histories", Note: fmt.Sprintf("%d starts x %d rates x every history of %d steps: audio at the cadence rounded down, just inside and just outside the window on both sides, far jumps both ways and the same time again, video packets, rate change, output switched with tables and new headers", len(starts), len(rates), depth), Run: func(c *Ctx) {
				t := starts[c.Choose(len(starts))]
				r := newRig(c, rates[c.Choose(len(rates))])
				audio(c, r, t)
				for i := 0; i < depth; i++ {
					next := r.k.last + r.k.frame
					k := c.Choose(11)
					switch k {
					case 0:
						t = uint32(next / 90)
					case 1:
						t = uint32((next + 900) / 90) // latest still inside
					case 2:
						t = uint32((next+900)/90) + 1
					case 3:
						t = uint32((next - 900 + 89) / 90) // earliest still inside
					case 4:
						t = uint32((next-900+89)/90) - 1
					case 5:
						t += 5000
					case 6:
						t -= 3000
					case 7: // same time again
					case 8:
						video(c, r, t+7, []int{0, 40, -40}[i%3])
						c.Logf("video")
						continue
					case 9:
						idx := rates[(i+1)%len(rates)]
						c.Check(r.m.SaveAACHeader(mustDemux(c, packet.PktAudio, aacHeaderBytes(idx))) == nil, "header refused")
						r.rate = aacRateTable[idx]
						c.Logf("rate %d", r.rate)
						continue
					case 10:
						r.w = &bytes.Buffer{}
						r.m.SetWriter(r.w)
						c.Check(r.m.SaveMetadata(amf.Object{"Provider": "p", "Service": "s"}) == nil, "metadata refused")
						c.Check(r.m.SaveAVCHeader(mustDemux(c, packet.PktVideo, vidData(true, true, 0, avcc([]byte{0x67, 0x4d, byte(i)}, []byte{0x68, 0xee})))) == nil, "video header refused")
						c.Check(r.m.SetTsHeader() == nil, "tables refused")
						c.Logf("output switched")
						continue
					}
					out := audio(c, r, t)
					c.Logf("audio at %d ms -> %d", t, out)
				}
				c.Eval(1)
				c.Outcome(r.k.last, t)
			}})
			n := pick(3000, 40000)
			ss = append(ss, chunked("steady-streams", fmt.Sprintf("13 rates x 8 starts x 6 patterns of jitter, %d packets each: source times rounded to milliseconds, with alternating jitter, drifting fast or slow, gaps, with video in between", n), 13*8*6, 2, func(c *Ctx, i int) {
				idx, st, j := i%13, i/13%8, i/13/8
				start := []int64{0, 3, 23, 5000, 1<<31 - 1000, 1<<32 - 5000, 1<<32 - 100000, 95443717 - 1000}[st]
				r := newRig(c, idx)
				frame := 1024000.0 / float64(r.rate)
				for x := 0; x < n; x++ {
					f := float64(start) + float64(x)*frame
					switch j {
					case 1:
						f += float64(x%7) - 3
					case 2:
						f += float64(x) * 0.013
					case 3:
						f -= float64(x) * 0.004
					case 4:
						f += float64(x/100) * 9.6
					case 5:
						if x%3 == 0 {
							video(c, r, uint32(int64(f)), x%50-20)
						}
					}
					if f < 0 {
						f = 0
					}
					audio(c, r, uint32(int64(f)))
				}
				c.Eval(n)
				c.Outcome(i)
			}))
			long := pick(140000, 600000)
			ss = append(ss, chunked("long-streams", fmt.Sprintf("13 rates, %d packets each at the cadence rounded to milliseconds (packet counts past 2^17)", long), 13, 1, func(c *Ctx, i int) {
				r := newRig(c, i)
				frame := 1024000.0 / float64(r.rate)
				inc := int64(1024 * 90000 / r.rate)
				for x := 0; x < long; x++ {
					t := uint32(float64(inc) * float64(x) / 90)
					if i%2 == 1 {
						t = uint32(frame*float64(x) + 0.5)
					}
					audio(c, r, t)
				}
				c.Eval(long)
				c.Outcome(i)
			}))
			ss = append(ss, chunked("rates", "every ordered pair of rates: 30 packets at the first, then 30 at the second", 13*13, 8, func(c *Ctx, i int) {
				r := newRig(c, i%13)
				t := 0.0
				for x := 0; x < 60; x++ {
					if x == 30 {
						c.Check(r.m.SaveAACHeader(mustDemux(c, packet.PktAudio, aacHeaderBytes(i/13))) == nil, "header refused")
						r.rate = aacRateTable[i/13]
					}
					audio(c, r, uint32(t))
					t += 1024000.0 / float64(r.rate)
				}
				c.Outcome(i)
			}))
			return ss
		},
	})

	register(&Prop{
		ID: "T07", Level: "model_checking",
		Rule:        "Every history of FLV packets within the bounds is converted by the real demuxer and mixer; an independent TS demuxer reads everything written, and media, order and times are compared with reference converters. A state is the parameter sets, audio configuration and cadence in force.",
		Assumptions: []string{"Sequence headers are saved or muxed as a server does; a muxed sequence header may yield an empty unit or nothing"},
		Findings:    known,
		Build: func(th bool) []*Scenario {
			type op struct {
				name  string
				pt    int
				data  []byte
				delta int64
				save  bool
			}
			multi := cat([]byte{1, 0x64, 0, 0x1f, 0xff, 0xe2}, be16(2), []byte{0x67, 1}, be16(3), []byte{0x67, 2, 2}, []byte{1}, be16(2), []byte{0x68, 1})
			ops := []op{
				{"AVC header saved", packet.PktVideo, vidData(true, true, 0, cfgA), 0, true},
				{"second AVC header muxed", packet.PktVideo, vidData(true, true, 0, multi), 0, false},
				{"AAC header saved", packet.PktAudio, []byte{0xaf, 0, 0x12, 0x10}, 0, true},
				{"48 kHz AAC header muxed", packet.PktAudio, []byte{0xaf, 0, 0x11, 0x90}, 0, false},
				{"small key frame", packet.PktVideo, vidData(true, false, 80, nal(0x65, 1, 2)), 40, false},
				{"large key frame with SEI", packet.PktVideo, vidData(true, false, 0, cat(nal(9, 0xf0), nal(6, 5, 4), nal(cat([]byte{0x65}, repBytes(1000, 1))...), nal(0x65, 9))), 40, false},
				{"inter frame, negative offset", packet.PktVideo, vidData(false, false, 0xffffd8, nal(cat([]byte{0x41}, repBytes(170, 2))...)), 40, false},
				{"Annex-B inter frame", packet.PktVideo, vidData(false, false, 40, cat(startCode4, []byte{0x41, 7, 7})), 33, false},
				{"audio frame", packet.PktAudio, cat([]byte{0xaf, 1}, repBytes(150, 5)), 23, false},
				{"long audio frame", packet.PktAudio, cat([]byte{0xaf, 1}, repBytes(700, 6)), 23, false},
				{"late audio frame", packet.PktAudio, cat([]byte{0xaf, 1}, repBytes(3, 7)), 50, false},
				{"far jump: audio", packet.PktAudio, cat([]byte{0xaf, 1}, repBytes(3, 7)), 1 << 31, false},
				{"tables", -1, nil, 0, false},
			}
			depth := pick(4, 5)
			run := func(c *Ctx, m *ts.Mixer, w *bytes.Buffer, h *h264Model, a *aacModel, k *cadence, ccs map[int]int, t *tableModel, o op, now uint32) {
				w.Reset()
				if o.pt < 0 {
					c.Check(m.SetTsHeader() == nil, "tables failed")
					c.Check(w.Len() == 564, "tables of %d bytes", w.Len())
					return
				}
				p := mustDemux(c, o.pt, o.data)
				hdr := o.data[1] == 0
				if hdr {
					if o.pt == packet.PktVideo {
						h.parse(o.data[5:], true)
					} else {
						obj, idx, ch, _ := aacInDomain(o.data[2:])
						*a = aacModel{known: true, obj: obj, idx: idx, ch: ch}
					}
					var err error
					if !o.save {
						err = m.Mux(p)
					} else if o.pt == packet.PktVideo {
						err = m.SaveAVCHeader(p)
					} else {
						err = m.SaveAACHeader(p)
					}
					c.Check(err == nil, "%s: %v", o.name, err)
					if w.Len() > 0 {
						pk, err := readTs(w.Bytes())
						c.Check(err == nil && len(pk) == 1 && !o.save, "%s: %d packets, %v", o.name, len(pk), err)
						d := pk[0].payload
						i := bytes.Index(d, []byte{0, 0, 1})
						c.Check(i >= 0, "%s: no unit", o.name)
						u, err := readPes(d[i:])
						c.Check(err == nil && len(u.payload) == 0, "%s: %v, %d payload bytes", o.name, err, len(u.payload))
						ccs[pk[0].pid] = pk[0].cc
					}
					return
				}
				var err error
				if o.pt == packet.PktVideo {
					ct := p.Header.(packet.VideoPacketHeader).CompositionTime()
					c.Check(m.Update(p, now, uint32(ct)) == nil, "update failed")
					err = m.Mux(p)
					c.Check(err == nil, "%s: %v", o.name, err)
					want, _ := h.parse(o.data[5:], false)
					off := int64(be24at(o.data[2:]))
					if off >= 1<<23 {
						off -= 1 << 24
					}
					dts := int64(now) * 90
					checkUnit(c, w.Bytes(), tsUnit{true, o.data[0]>>4 == 1, dts + off*90, dts, want}, ccs, o.name)
					c.Outcome(w.Bytes())
					return
				}
				err = m.Update(p, now, 0)
				if !a.known {
					c.Check(err != nil || m.Mux(p) != nil, "%s accepted before any audio header", o.name)
					c.Check(w.Len() == 0, "%s before any audio header wrote %d bytes", o.name, w.Len())
					return
				}
				c.Check(err == nil, "%s: %v", o.name, err)
				err = m.Mux(p)
				c.Check(err == nil, "%s: %v", o.name, err)
				pk, err := readTs(w.Bytes())
				c.Check(err == nil && len(pk) > 0, "%s: %v", o.name, err)
				var d []byte
				for _, x := range pk {
					d = append(d, x.payload...)
				}
				u, err := readPes(d)
				c.Check(err == nil, "%s: %v", o.name, err)
				e := a.checkADTS(u.payload, o.data[2:])
				c.Check(e == nil, "%s: %v", o.name, e)
				out := k.step(c, int64(now)*90, aacRateTable[a.idx], u.pts, o.name)
				checkUnit(c, w.Bytes(), tsUnit{false, false, out, out, u.payload}, ccs, o.name)
				c.Outcome(w.Bytes())
			}
			var ss []*Scenario
			starts := []uint32{0, 1000, 1<<32 - 60}
			ss = append(ss, &Scenario{Name: "histories", Note: fmt.Sprintf("%d starting times x with or without saved headers x every history of up to %d of %d packets and table requests", len(starts), depth, len(ops)), Run: func(c *Ctx) {
				var w bytes.Buffer
				m := ts.NewMixer(&w)
				h, a, k := &h264Model{}, &aacModel{}, &cadence{}
				ccs := map[int]int{}
				now := starts[c.Choose(len(starts))]
				if c.Bool() {
					for _, i := range []int{0, 2} {
						run(c, m, &w, h, a, k, ccs, nil, ops[i], now)
					}
				}
				n := 1 + c.Choose(depth)
				for i := 0; i < n; i++ {
					o := ops[c.Choose(len(ops))]
					now += uint32(o.delta)
					c.Logf("%s at %d", o.name, now)
					run(c, m, &w, h, a, k, ccs, nil, o, now)
					c.Step(1)
					c.State(h.sets, *a, k.last-int64(now)*90)
				}
				c.Eval(1)
			}})
			ss = append(ss, cyclic("very-long", "packets", pick(60000, 1000000), len(ops), func(c *Ctx) func(op, step int) {
				var w bytes.Buffer
				m := ts.NewMixer(&w)
				h, a, k := &h264Model{}, &aacModel{}, &cadence{}
				ccs := map[int]int{}
				now := uint32(0)
				run(c, m, &w, h, a, k, ccs, nil, ops[0], now)
				run(c, m, &w, h, a, k, ccs, nil, ops[2], now)
				return func(x, n int) {
					now += uint32(ops[x].delta)
					run(c, m, &w, h, a, k, ccs, nil, ops[x], now)
				}
			}))
			rates := []int{0, 3, 4, 7, 8, 11, 12}
			cts := []int{0, 1, -1, 1<<23 - 1, -1 << 23}
			ss = append(ss, &Scenario{Name: "timing", Note: fmt.Sprintf("%d sample rates x 3 starting times x every history of %d packets: audio at the frame time, up to 60 ms around it, repeated or stepping back, video with %d composition times, restarts at time 0 and at the last 32-bit time; every second packet to a new output", len(rates), depth, len(cts)), Run: func(c *Ctx) {
				var w bytes.Buffer
				m := ts.NewMixer(&w)
				h, a, k := &h264Model{}, &aacModel{}, &cadence{}
				ccs := map[int]int{}
				idx := rates[c.Choose(len(rates))]
				now := starts[c.Choose(len(starts))]
				run(c, m, &w, h, a, k, ccs, nil, ops[0], 0)
				run(c, m, &w, h, a, k, ccs, nil, op{"AAC header", packet.PktAudio, aacHeaderBytes(idx), 0, true}, 0)
				frame := 1024000 / aacRateTable[idx]
				steps := []int{frame, frame + 9, frame + 12, frame + 60, frame - 9, frame - 25, 0, -frame - 7}
				for i := 0; i < depth; i++ {
					x := c.Choose(len(steps) + len(cts) + 2)
					o := op{"audio", packet.PktAudio, cat([]byte{0xaf, 1}, repBytes(20+i, 5)), 0, false}
					switch {
					case x < len(steps):
						now += uint32(steps[x])
					case x < len(steps)+len(cts):
						now += uint32(40 * (i % 2))
						o = op{"video", packet.PktVideo, vidData(false, false, cts[x-len(steps)]&0xffffff, nal(0x41, 7, byte(i))), 0, false}
					case x == len(steps)+len(cts):
						now = 0
						if i%2 == 1 {
							o = op{"key frame", packet.PktVideo, vidData(true, false, 0, nal(cat([]byte{0x65}, repBytes(400, 1))...)), 0, false}
						}
					default:
						now = 1<<32 - 1
					}
					c.Logf("%s at %d", o.name, now)
					to, held := &w, append([]byte{}, w.Bytes()...)
					if i%2 == 1 {
						to = &bytes.Buffer{}
						m.SetWriter(to)
					}
					run(c, m, to, h, a, k, ccs, nil, o, now)
					if i%2 == 1 {
						c.Check(bytes.Equal(w.Bytes(), held), "%s: written to the output in use before the switch", o.name)
						m.SetWriter(&w)
					}
					if o.pt == packet.PktAudio {
						d := k.last - int64(now)*90
						c.Check(d >= -900 && d <= 900, "audio packet at %d ms is %d ticks away", now, d)
					}
					c.Step(1)
					c.State(idx, k.last-int64(now)*90)
				}
				c.Eval(1)
			}})
			ss = append(ss, chunked("long-streams", fmt.Sprintf("streams of 600 packets: %d gop lengths x 13 rates x 4 frame sizes, audio and video interleaved by time", 4), 4*13*4, 2, func(c *Ctx, i int) {
				gop, idx, sz := []int{1, 2, 12, 50}[i%4], i/4%13, []int{10, 180, 1400, 9000}[i/52]
				var w bytes.Buffer
				m := ts.NewMixer(&w)
				h, a, k := &h264Model{}, &aacModel{}, &cadence{}
				ccs := map[int]int{}
				run(c, m, &w, h, a, k, ccs, nil, ops[0], 0)
				run(c, m, &w, h, a, k, ccs, nil, op{"AAC header", packet.PktAudio, aacHeaderBytes(idx), 0, true}, 0)
				vt, at := 500.0, 500.0
				nv := 0
				for x := 0; x < 600; x++ {
					if vt <= at {
						typ := byte(0x41)
						if nv%gop == 0 {
							typ = 0x65
						}
						b := vidData(nv%gop == 0, false, (nv%3)*33&0xffffff, nal(cat([]byte{typ}, repBytes(sz+nv%40, nv))...))
						run(c, m, &w, h, a, k, ccs, nil, op{"video", packet.PktVideo, b, 0, false}, uint32(vt))
						vt += 1000.0 / 30
						nv++
					} else {
						b := cat([]byte{0xaf, 1}, repBytes(min(8184, sz/2+x%50+1), x))
						run(c, m, &w, h, a, k, ccs, nil, op{"audio", packet.PktAudio, b, 0, false}, uint32(at))
						at += 1024000.0 / float64(aacRateTable[idx])
					}
				}
				c.Step(600)
				c.Outcome(i)
			}))
			return ss
		},
	})

	register(&Prop{
		ID: "T08", Level: "model_checking",
		Rule:        "Every history of descriptors is appended with the real code and parsed back by an independent reader; a state is a distinct descriptor list.",
		Findings:    map[string]string{"country-length": ""},
		Assumptions: []string{"A country code is a number written big-endian in three or four bytes"},
		Build: func(th bool) []*Scenario {
			var ss []*Scenario
			type want struct {
				bytes   []byte
				country int // 0 no, 1 available, 2 not
				code    uint32
			}
			type op struct {
				name string
				do   func(d *table.Descriptor) error
				ok   bool
				w    want
			}
			service := func(typ byte, p, s int) op {
				return op{fmt.Sprintf("service %d %d", p, s), func(d *table.Descriptor) error { return d.Service(typ, rep(p), rep(s)) }, p+s+3 <= 255,
					want{bytes: cat([]byte{0x48, byte(p + s + 3), typ, byte(p)}, []byte(rep(p)), []byte{byte(s)}, []byte(rep(s)))}}
			}
			network := func(n int) op {
				return op{fmt.Sprintf("network %d", n), func(d *table.Descriptor) error { return d.NetworkName(rep(n)) }, n <= 255, want{bytes: cat([]byte{0x40, byte(n)}, []byte(rep(n)))}}
			}
			country := func(av bool, code uint32) op {
				k := 2
				if av {
					k = 1
				}
				return op{fmt.Sprintf("country %v %x", av, code), func(d *table.Descriptor) error { return d.CountryAvailability(av, code) }, true, want{country: k, code: code}}
			}
			judge := func(c *Ctx, got []byte, ws []want) {
				for i, w := range ws {
					if w.country == 0 {
						c.Check(bytes.HasPrefix(got, w.bytes), "descriptor %d is %s, want %s", i, hx(got[:min(len(got), len(w.bytes))]), hx(w.bytes))
						got = got[len(w.bytes):]
						continue
					}
					c.Check(len(got) >= 6 && got[0] == 0x49 && (got[2] >= 0x80) == (w.country == 1), "country descriptor %d is %s", i, hx(got))
					switch {
					case got[1] == 4 && bytes.HasPrefix(got[3:], cat(be32(int(w.code&0xfff)))) && (i+1 < len(ws) || len(got) == 7) && (i+1 == len(ws) || len(got) > 7 && (got[7] == 0x40 || got[7] == 0x48 || got[7] == 0x49)):
						c.Known("country-length", "the country availability descriptor announces 4 bytes but 5 follow, and only 12 bits of the country code are kept: %s", hx(got[:7]))
						got = got[7:]
					case got[1] == 4 && bytes.Equal(got[3:6], be24(int(w.code&0xffffff))):
						got = got[6:]
					case got[1] == 5 && bytes.HasPrefix(got[3:], be32(int(w.code))):
						got = got[7:]
					default:
						c.Fail("country descriptor %d is %s, code %x", i, hx(got[:min(len(got), 8)]), w.code)
					}
				}
				c.Check(len(got) == 0, "%d bytes follow the last descriptor: %s", len(got), hx(got))
			}
			ops := []op{service(1, 0, 0), service(0x80, 4, 5), service(0xff, 126, 126), service(1, 126, 127), service(1, 0, 300), service(1, 256, 0), service(1, 200, 200), network(0), network(7), network(255), network(256), network(70000), country(true, 0x567), country(false, 0), country(true, 0x626561), country(false, 0xffffffff)}
			depth := pick(4, 5)
			ss = append(ss, &Scenario{Name: "histories", Note: fmt.Sprintf("every history of up to %d of %d descriptors (5 that cannot fit)", depth, len(ops)), Run: func(c *Ctx) {
				d := table.NewDescriptor()
				var ws []want
				n := c.Choose(depth + 1)
				for i := 0; i < n; i++ {
					o := ops[c.Choose(len(ops))]
					err := o.do(d)
					c.Logf("%s: %v", o.name, err)
					c.Check((err == nil) == o.ok, "%s: error %v, must be accepted %v", o.name, err, o.ok)
					if o.ok {
						ws = append(ws, o.w)
					}
					judge(c, append([]byte{}, d.GetBuffer().Bytes()...), ws)
					c.Step(1)
					c.State(d.GetBuffer().Bytes())
				}
				c.Eval(n)
				c.Outcome(d.GetBuffer().Bytes())
			}})
			ss = append(ss, chunked("long-lists", "lists of 300 descriptors: each pair of kinds in turn, the second once in every 1, 2 or 7, checked on the way at every power of two", len(ops)*len(ops)*3, 16, func(c *Ctx, i int) {
				d := table.NewDescriptor()
				var ws []want
				a, b, k := ops[i/3%len(ops)], ops[i/3/len(ops)], []int{1, 2, 7}[i%3]
				for n := 1; n <= 300; n++ {
					o := a
					if n%k == 0 {
						o = b
					}
					err := o.do(d)
					c.Check((err == nil) == o.ok, "descriptor %d, %s: error %v, must be accepted %v", n, o.name, err, o.ok)
					if o.ok {
						ws = append(ws, o.w)
					}
					if n&(n-1) == 0 || n == 300 {
						judge(c, d.GetBuffer().Bytes(), ws)
					}
				}
				c.State(d.GetBuffer().Len())
			}))
			ss = append(ss, chunked("name-contents", fmt.Sprintf("names of every length 0..256 in bytes made of %d contents (two- to four-byte UTF-8, invalid UTF-8, zero bytes, spaces, control codes, descriptor tags) as provider, service and network name", len(nameFills)), 257*len(nameFills), 64, func(c *Ctx, i int) {
				s := fillName(nameFills[i/257], i%257)
				d := table.NewDescriptor()
				var ws []want
				svc := func(p, q string) op {
					return op{fmt.Sprintf("service %q %q", p, q), func(d *table.Descriptor) error { return d.Service(1, p, q) }, len(p)+len(q)+3 <= 255,
						want{bytes: cat([]byte{0x48, byte(len(p) + len(q) + 3), 1, byte(len(p))}, []byte(p), []byte{byte(len(q))}, []byte(q))}}
				}
				for _, o := range []op{
					svc("é", s), svc(s, " x "),
					{fmt.Sprintf("network %q", s), func(d *table.Descriptor) error { return d.NetworkName(s) }, len(s) <= 255, want{bytes: cat([]byte{0x40, byte(len(s))}, []byte(s))}},
					svc(s[:len(s)/2], s[len(s)/2:]),
				} {
					err := o.do(d)
					c.Check((err == nil) == o.ok, "%s: error %v, must be accepted %v", o.name, err, o.ok)
					if o.ok {
						ws = append(ws, o.w)
					}
				}
				judge(c, d.GetBuffer().Bytes(), ws)
				c.State(d.GetBuffer().Bytes())
				c.Step(4)
			}))
			const top = 300
			ss = append(ss, chunked("service-lengths", "every pair of name lengths 0..299 between two other descriptors", top*top, 512, func(c *Ctx, i int) {
				d := table.NewDescriptor()
				var ws []want
				for _, o := range []op{network(3), service(byte(i), i/top, i%top), network(2)} {
					err := o.do(d)
					c.Check((err == nil) == o.ok, "%s: error %v, must be accepted %v", o.name, err, o.ok)
					if o.ok {
						ws = append(ws, o.w)
					}
				}
				judge(c, d.GetBuffer().Bytes(), ws)
				c.State(d.GetBuffer().Bytes())
				c.Step(3)
			}))
			ss = append(ss, chunked("network-lengths", "every network name length 0..1100 and around 65536", 1101+20, 32, func(c *Ctx, i int) {
				n := i
				if i > 1100 {
					n = 65536 + i - 1111
				}
				d := table.NewDescriptor()
				var ws []want
				for _, o := range []op{service(1, 1, 1), network(n), service(2, 2, 0)} {
					err := o.do(d)
					c.Check((err == nil) == o.ok, "%s: error %v, must be accepted %v", o.name, err, o.ok)
					if o.ok {
						ws = append(ws, o.w)
					}
				}
				judge(c, d.GetBuffer().Bytes(), ws)
				c.State(n)
				c.Step(3)
			}))
			return ss
		},
	})
}

func be24at(b []byte) int { return int(b[0])<<16 | int(b[1])<<8 | int(b[2]) }
