package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"

	"github.com/moggle-mog/goav/amf"
	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/packet"
)

type refTag struct {
	typ  byte
	ts   uint32
	body []byte
}

// refFlvTags is an independent FLV tag reader.
func refFlvTags(b []byte) ([]refTag, error) {
	var l []refTag
	for len(b) > 0 {
		if len(b) < 15 {
			return l, fmt.Errorf("%d stray bytes", len(b))
		}
		n := int(b[1])<<16 | int(b[2])<<8 | int(b[3])
		t := refTag{typ: b[0], ts: uint32(b[7])<<24 | uint32(b[4])<<16 | uint32(b[5])<<8 | uint32(b[6])}
		if b[8]|b[9]|b[10] != 0 {
			return l, fmt.Errorf("stream id %x", b[8:11])
		}
		if len(b) < 15+n {
			return l, fmt.Errorf("body size %d, only %d bytes follow", n, len(b)-11)
		}
		t.body = b[11 : 11+n]
		if back := binary.BigEndian.Uint32(b[11+n:]); back != uint32(11+n) {
			return l, fmt.Errorf("back-pointer %d after a body of %d bytes", back, n)
		}
		b = b[15+n:]
		l = append(l, t)
	}
	return l, nil
}

func (t refTag) eq(o refTag) bool {
	return t.typ == o.typ && t.ts == o.ts && bytes.Equal(t.body, o.body)
}

func (t refTag) String() string {
	return fmt.Sprintf("{type %d ts %d body %s}", t.typ, t.ts, hx(t.body))
}

func tagType(pt int) (byte, bool) {
	switch pt {
	case packet.PktVideo:
		return 9, true
	case packet.PktAudio:
		return 8, true
	case packet.PktMetadata:
		return 18, true
	}
	return 0, false
}

// flvCase: one packet and the tag it must become (ok=false: refused).
type flvCase struct {
	pt   int
	data []byte
	body []byte
	ok   bool
}

func flvAlphabet() []flvCase {
	md := cat(b0str("onMetaData"), []byte{3}, b0utf("w"), b0num(3), []byte{0, 0, 9})
	return []flvCase{
		{packet.PktVideo, []byte{0x17, 0, 0, 0, 0, 1}, []byte{0x17, 0, 0, 0, 0, 1}, true},
		{packet.PktVideo, nil, nil, true},
		{packet.PktAudio, []byte{0xaf, 1, 2, 3}, []byte{0xaf, 1, 2, 3}, true},
		{packet.PktAudio, repBytes(300, 3), repBytes(300, 3), true},
		{packet.PktMetadata, md, md, true},
		{packet.PktMetadata, cat(b0str("@setDataFrame"), md), md, true},
		{packet.PktMetadata, cat(b0long("@setDataFrame"), md), md, true},
		{packet.PktMetadata, b0str("@setDataFrame"), nil, true},
		{packet.PktMetadata, b0num(1), nil, false},
		{packet.PktMetadata, nil, nil, false},
		{3, []byte{1}, nil, false},
		{-1, []byte{1}, nil, false},
		{9, []byte{1}, nil, false},
		{1 << 32, []byte{1}, nil, false},
	}
}

// tailWriter keeps only what is needed to check one tag without storing it.
type tagSweep struct {
	m *flv.Mixer
	w bytes.Buffer
	p packet.Packet
}

func init() {
	tsEdges := func() []uint32 {
		m := map[uint32]bool{}
		var l []uint32
		add := func(x uint32) {
			if !m[x] {
				m[x] = true
				l = append(l, x)
			}
		}
		for k := uint(0); k < 32; k++ {
			for d := uint32(0); d < 5; d++ {
				add(1<<k + d - 2)
			}
		}
		for _, x := range []uint32{0x01020304, 0xfedcba98, 0xffffff, 0x1000000, 0xffffffff, 0xff00ff00, 0x00ff00ff} {
			add(x)
		}
		return l
	}()
	register(&Prop{
		ID: "F01", Level: "exploration",
		Rule: "Each evaluation muxes one packet with the real mixer and parses everything written with an independent FLV reader. Distinct outcomes are distinct outputs.",
		Build: func(th bool) []*Scenario {
			al := flvAlphabet()
			var ss []*Scenario
			depth := pick(4, 5)
			tsel := []uint32{0, 0x01020304, 0xff000000, 0xffffffff}
			ss = append(ss, &Scenario{Name: "sequences", Note: fmt.Sprintf("every sequence of 1..%d packets over %d packets (all types, refused ones included) with rotating timestamps on one mixer", depth, len(al)), Run: func(c *Ctx) {
				var w bytes.Buffer
				m := flv.NewMixer(&w)
				n := 1 + c.Choose(depth)
				for i := 0; i < n; i++ {
					k := al[c.Choose(len(al))]
					ts := tsel[(i+len(k.data))%len(tsel)]
					before := w.Len()
					p := vary(&packet.Packet{Type: k.pt, Data: append([]byte{}, k.data...)}, i)
					err := m.Mux(p, ts)
					out := w.Bytes()[before:]
					c.Logf("packet %d type %d data %s ts %d -> %d bytes, error %v", i, k.pt, hx(k.data), ts, len(out), err)
					c.Step(1)
					if !k.ok {
						c.Check(err != nil && len(out) == 0, "packet type %d data %s must be refused: error %v, %d bytes written", k.pt, hx(k.data), err, len(out))
						continue
					}
					c.Check(err == nil, "packet type %d: %v", k.pt, err)
					tags, perr := refFlvTags(out)
					typ, _ := tagType(k.pt)
					want := refTag{typ, ts, k.body}
					c.Check(perr == nil && len(tags) == 1 && tags[0].eq(want), "packet type %d data %s ts %d: output %s reads as %v (%v), want %v", k.pt, hx(k.data), ts, hx(out), tags, perr, want)
				}
				c.Eval(n)
				c.Outcome(w.Bytes())
			}})
			ss = append(ss, cyclic("very-long", "packets", pick(150000, 3000000), len(al), func(c *Ctx) func(op, step int) {
				var w bytes.Buffer
				m := flv.NewMixer(&w)
				return func(x, n int) {
					k, ts := al[x], tsel[n%len(tsel)]+uint32(n)
					w.Reset()
					err := m.Mux(&packet.Packet{Type: k.pt, Data: append([]byte{}, k.data...)}, ts)
					c.Check((err == nil) == k.ok, "packet %d of type %d: %v", n, k.pt, err)
					if err != nil {
						c.Check(w.Len() == 0, "refused packet wrote %d bytes", w.Len())
						return
					}
					tags, perr := refFlvTags(w.Bytes())
					typ, _ := tagType(k.pt)
					want := refTag{typ, ts, k.body}
					c.Check(perr == nil && len(tags) == 1 && tags[0].eq(want), "packet %d of type %d: output %s reads as %v (%v), want %v", n, k.pt, hx(w.Bytes()), tags, perr, want)
				}
			}))
			ss = append(ss, chunked("timestamps", "every type x 167 boundary timestamps x body lengths 0..20 and 255..257", 3*len(tsEdges), 16, func(c *Ctx, i int) {
				pt, ts := i%3, tsEdges[i/3]
				var w bytes.Buffer
				m := flv.NewMixer(&w)
				for n := 0; n <= 257; n++ {
					if n > 20 && n < 255 {
						continue
					}
					w.Reset()
					body := repBytes(n, i)
					data := body
					if pt == packet.PktMetadata {
						body = cat(b0str(rep(n)), body)
						data = cat(b0str("@setDataFrame"), body)
					}
					c.Check(m.Mux(pkt(pt, data), ts) == nil, "refused")
					tags, err := refFlvTags(w.Bytes())
					typ, _ := tagType(pt)
					c.Check(err == nil && len(tags) == 1 && tags[0].eq(refTag{typ, ts, body}), "type %d ts %d body length %d: %v %v", pt, ts, n, clip(fmt.Sprint(tags), 200), err)
				}
			}))
			forms := func(t string) [][]byte {
				x := func(m byte) []byte { return cat([]byte{17, m}, b3utf(t)) }
				return [][]byte{b0str(t), b0long(t), cat([]byte{15}, be32(len(t)), []byte(t)), x(6), x(7), x(11)}
			}
			texts := []string{"onMetaData", "", "onCuePoint", "@setDataFrame", "@SetDataFrame", "@setDataFrame\x00", "@setDataFram", "@clearDataFrame", "onTextData"}
			tails := [][]byte{nil, {3, 0, 0, 9}, {0xff, 0xff}, b0str("@setDataFrame"), {17, 6, 3, 'x'}, repBytes(300, 9)}
			ss = append(ss, &Scenario{Name: "script", Note: fmt.Sprintf("script packets: %d leading strings in 6 encodings x %d tails, and behind the command in its 6 encodings every first byte x %d tails", len(texts), len(tails), len(tails)), Run: func(c *Ctx) {
				var data, body []byte
				what := "plain"
				if k := c.Choose(len(texts) + 1); k < len(texts) {
					head := forms(texts[k])[c.Choose(6)]
					body = tails[c.Choose(len(tails))]
					data = cat(head, body)
					if texts[k] != "@setDataFrame" {
						body = data
					}
				} else {
					what = "behind the command"
					head := forms("@setDataFrame")[c.Choose(6)]
					body = cat([]byte{byte(c.Choose(256))}, tails[c.Choose(len(tails))])
					data = cat(head, body)
				}
				c.Logf("%s %s", what, hx(data))
				var w bytes.Buffer
				m := flv.NewMixer(&w)
				for i := 0; i < 2; i++ {
					w.Reset()
					ts := uint32(0x05000102) * uint32(i)
					err := m.Mux(pkt(packet.PktMetadata, append([]byte{}, data...)), ts)
					c.Check(err == nil, "script %s refused: %v", hx(data), err)
					tags, err := refFlvTags(w.Bytes())
					c.Check(err == nil && len(tags) == 1 && tags[0].eq(refTag{18, ts, body}), "script %s: output %s reads as %v (%v), want type 18 ts %d body %s", hx(data), hx(w.Bytes()), tags, err, ts, hx(body))
				}
				c.Step(2)
				c.Eval(2)
				c.Outcome(w.Bytes())
			}})
			ss = append(ss, chunked("script-words", fmt.Sprintf("script packets beginning with each of %d well-known names, with and without the command before them", len(words)), len(words)*2, 16, func(c *Ctx, i int) {
				body := cat(b0str(words[i/2]), []byte{8, 0, 0, 0, 1}, b0utf(words[i/2]), b0str(words[i/2]), []byte{0, 0, 9})
				data := body
				if i&1 == 1 {
					data = cat(b0str("@setDataFrame"), body)
				} else if words[i/2] == "@setDataFrame" {
					return
				}
				var w bytes.Buffer
				err := flv.NewMixer(&w).Mux(pkt(packet.PktMetadata, append([]byte{}, data...)), 9)
				c.Check(err == nil, "script %s refused: %v", hx(data), err)
				tags, err := refFlvTags(w.Bytes())
				c.Check(err == nil && len(tags) == 1 && tags[0].eq(refTag{18, 9, body}), "script %s: output reads as %v (%v)", hx(data), tags, err)
				c.Step(1)
				c.Eval(1)
				c.Outcome(w.Bytes())
			}))
			stride := uint64(pick(101, 1))
			ss = append(ss, &Scenario{Name: "all-timestamps", Note: fmt.Sprintf("all 2^32 timestamps with stride %d (1 = every one), alternating video and audio", stride), Run: func(c *Ctx) {
				j := uint64(c.Choose(4096))
				s := &tagSweep{}
				s.m = flv.NewMixer(&s.w)
				s.p.Data = []byte{0x27, 1, 0, 0, 0, 9}
				n := 0
				for x := j << 20; x < (j+1)<<20; x += stride {
					ts := uint32(x + j%stride)
					s.p.Type = int(x & 1)
					s.w.Reset()
					err := s.m.Mux(&s.p, ts)
					b := s.w.Bytes()
					if err != nil || len(b) != 21 || b[0] != 9-byte(x&1) || b[1] != 0 || b[2] != 0 || b[3] != 6 || b[4] != byte(ts>>16) || b[5] != byte(ts>>8) || b[6] != byte(ts) || b[7] != byte(ts>>24) || b[8]|b[9]|b[10] != 0 || !bytes.Equal(b[11:17], s.p.Data) || binary.BigEndian.Uint32(b[17:]) != 17 {
						c.Fail("type %d timestamp %#x: %s, error %v", s.p.Type, ts, hx(b), err)
					}
					n++
					if n == 65536 {
						c.Eval(n)
						n = 0
					}
				}
				c.Eval(n)
				c.Outcome("block", j)
			}})
			max := pick(70000, 300000)
			ss = append(ss, chunked("lengths", fmt.Sprintf("every body length 0..%d", max), max+1, 200, func(c *Ctx, n int) {
				var w bytes.Buffer
				pt := n % 2
				data := repBytes(n, 7)
				c.Check(flv.NewMixer(&w).Mux(pkt(pt, data), uint32(n)*7919) == nil, "length %d refused", n)
				tags, err := refFlvTags(w.Bytes())
				typ, _ := tagType(pt)
				c.Check(err == nil && len(tags) == 1 && tags[0].eq(refTag{typ, uint32(n) * 7919, data}), "body length %d: %v", n, err)
			}))
			big := []int{1<<20 - 1, 1 << 20, 1<<23 - 1, 1 << 23, 1<<24 - 12, 1<<24 - 11, 1<<24 - 2, 1<<24 - 1, 1 << 24, 1<<24 + 1, 1<<24 + 12, 1<<25 + 5}
			ss = append(ss, &Scenario{Name: "size-limit", Note: "body lengths around 2^20, 2^23 and the 24-bit limit, every type; larger bodies must be refused with nothing written and not disturb the next tag", Run: func(c *Ctx) {
				n := big[c.Choose(len(big))]
				pt := c.Choose(3)
				hdr := c.Bool()
				if hdr && pt != packet.PktMetadata {
					return
				}
				body := make([]byte, n)
				for i := 0; i < n; i += 4093 {
					body[i] = byte(i >> 8)
				}
				data := body
				if pt == packet.PktMetadata {
					copy(body, b0str("onMetaData"))
					if hdr {
						data = cat(b0str("@setDataFrame"), body)
					}
				}
				var w bytes.Buffer
				m := flv.NewMixer(&w)
				err := m.Mux(pkt(pt, data), 1)
				c.Logf("type %d, %d bytes: error %v", pt, n, err)
				typ, _ := tagType(pt)
				if n > 0xffffff {
					c.Check(err != nil && w.Len() == 0, "type %d body of %d bytes: error %v, %d bytes written", pt, n, err, w.Len())
				} else {
					tags, perr := refFlvTags(w.Bytes())
					c.Check(err == nil && perr == nil && len(tags) == 1 && tags[0].eq(refTag{typ, 1, body}), "type %d body of %d bytes: error %v, %v", pt, n, err, perr)
				}
				w.Reset()
				c.Check(m.Mux(pkt(packet.PktAudio, []byte{0xaf, 1, 9}), 2) == nil, "following packet refused")
				tags, perr := refFlvTags(w.Bytes())
				c.Check(perr == nil && len(tags) == 1 && tags[0].eq(refTag{8, 2, []byte{0xaf, 1, 9}}), "following packet: %v %v", tags, perr)
				c.Eval(1)
				c.Outcome(n, pt, hdr)
			}})
			return ss
		},
	})

	register(&Prop{
		ID: "F02", Level: "model_checking",
		Rule:        "Every sequence of operations is run against the real mixer and against a model (saved metadata, saved headers, current output); each output's new bytes are parsed after every operation and compared with the model. A state is a distinct model state.",
		Assumptions: []string{"Sequence headers are passed to the save operation of their own kind or with an unknown packet type"},
		Build: func(th bool) []*Scenario {
			type op struct {
				name string
				kind int
				arg  int
			}
			ops := []op{{"request", 0, 0}, {"save metadata 1", 1, 1}, {"save metadata 2", 1, 2}, {"save unencodable metadata", 1, 3}, {"save empty metadata", 1, 4}, {"save nil metadata", 1, 5}, {"save AVC header 1", 2, 1}, {"save AVC header 2", 2, 2}, {"save AVC header of unknown type", 2, 3}, {"save AAC header 1", 3, 1}, {"save AAC header 2", 3, 2}, {"save AAC header of unknown type", 3, 3}, {"mux video", 4, 0}, {"mux audio", 4, 1}, {"mux script", 4, 2}, {"mux unknown", 4, 7}, {"switch output", 5, 0}}
			depth := pick(5, 6)
			sizes := &Scenario{Name: "sizes", Note: "video and audio headers of every length 1..64 each, with unlike or equal contents, saved in both orders, requested twice on two outputs", Run: func(c *Ctx) {
				lv, la := 1+c.Choose(64), 1+c.Choose(64)
				v, a := repBytes(lv, 1), repBytes(la, 2)
				if c.Bool() {
					a = repBytes(la, 1)
				}
				var w [2]bytes.Buffer
				m := flv.NewMixer(&w[0])
				av := []func() error{func() error { return m.SaveAVCHeader(pkt(packet.PktVideo, v)) }, func() error { return m.SaveAACHeader(pkt(packet.PktAudio, a)) }}
				first := c.Choose(2)
				c.Check(av[first]() == nil && av[1-first]() == nil && m.SetFlvHeader() == nil, "refused")
				m.SetWriter(&w[1])
				c.Check(m.SetFlvHeader() == nil, "refused")
				for i := range w {
					b := w[i].Bytes()
					c.Check(len(b) >= 13 && b[4] == 5, "request %d: no file header for both kinds: %s", i, hx(b))
					tags, err := refFlvTags(b[13:])
					c.Check(err == nil && len(tags) == 2 && tags[0].eq(refTag{9, 0, v}) && tags[1].eq(refTag{8, 0, a}), "request %d: headers of %d and %d bytes: output reads as %v (%v)", i, lv, la, tags, err)
				}
				c.Eval(2)
				c.Outcome(w[0].Bytes())
			}}
			wm := chunked("metadata-words", fmt.Sprintf("metadata with each of %d well-known names as key, alone and next to another, with 9 values and 0..2 saved headers; saved, replaced, requested twice", len(words)), len(words)*9*2, 32, func(c *Ctx, i int) {
				t := words[i/18]
				v := wordValues(t)[i/2%9]
				o := mkObj([]string{t}, []aval{v})
				if i&1 == 1 {
					ks, es := []string{t, "~"}, []aval{v, mkStr("y")}
					o = mkObj(ks, es)
				}
				var w bytes.Buffer
				m := flv.NewMixer(&w)
				n := i % 3
				var want []refTag
				if n > 0 {
					want = append(want, refTag{9, 0, []byte{0x17, 0, 0, 0, 0, 1, 0x64}})
					c.Check(m.SaveAVCHeader(pkt(packet.PktVideo, append([]byte{}, want[0].body...))) == nil, "refused")
				}
				if n > 1 {
					want = append(want, refTag{8, 0, []byte{0xaf, 0, 0x12, 0x10}})
					c.Check(m.SaveAACHeader(pkt(packet.PktAudio, append([]byte{}, want[1].body...))) == nil, "refused")
				}
				md := o.v.(amf.Object)
				c.Check(m.SaveMetadata(amf.Object{"old": t}) == nil, "refused")
				c.Check(m.SaveMetadata(md) == nil, "%s refused", o.name)
				for r := 0; r < 2; r++ {
					w.Reset()
					c.Check(m.SetFlvHeader() == nil, "request failed")
					b := w.Bytes()
					c.Check(len(b) >= 13 && b[4] == []byte{0, 1, 5}[n], "no or wrong file header: %s", hx(b))
					tags, err := refFlvTags(b[13:])
					c.Check(err == nil && len(tags) == n+1 && tags[0].typ == 18 && tags[0].ts == 0, "metadata %s: output reads as %v (%v)", o.name, tags, err)
					for k := range want {
						c.Check(tags[k+1].eq(want[k]), "metadata %s: tag %d is %v", o.name, k+1, tags[k+1])
					}
					in, d := &refIn{b: tags[0].body}, &ref0Dec{}
					s := ""
					_, st, why := refRun(func() interface{} {
						for in.pos < len(in.b) {
							s += canonRef(d.value(in)) + ";"
						}
						return nil
					})
					c.Check(st == refOK && s == "s10:onMetaData;"+o.c0+";", "metadata %s: script tag reads as %s (%s), want %s", o.name, s, why, o.c0)
				}
				c.Eval(2)
				c.State(t, i%18)
				c.Outcome(w.Bytes())
			})
			var big []int
			for e := uint(6); e <= 20; e++ {
				big = append(big, 1<<e-1, 1<<e, 1<<e+1)
			}
			big = append(big, 0xffffff-1, 0xffffff)
			large := chunked("large", fmt.Sprintf("video header, audio header or metadata of %d sizes around powers of two to 2^20 (headers to the tag limit), the others small or equally large", len(big)), len(big)*4, 1, func(c *Ctx, i int) {
				n, kind := big[i/4], i%4
				v, a, md := []byte{0x17, 0, 0, 0, 0, 1}, []byte{0xaf, 0, 0x12, 0x10}, "x"
				if kind == 0 || kind == 3 {
					v = repBytes(n, 1)
				}
				if kind == 1 || kind == 3 {
					a = repBytes(n, 2)
				}
				if n < 1<<21 && kind >= 2 {
					md = strings.Repeat("m", n)
				}
				var w bytes.Buffer
				m := flv.NewMixer(&w)
				c.Check(m.SaveMetadata(amf.Object{"a": md}) == nil && m.SaveAVCHeader(pkt(packet.PktVideo, v)) == nil && m.SaveAACHeader(pkt(packet.PktAudio, a)) == nil, "refused")
				for r := 0; r < 2; r++ {
					w.Reset()
					c.Check(m.SetFlvHeader() == nil, "request failed")
					c.Check(w.Len() > 13 && w.Bytes()[4] == 5, "no file header for both kinds")
					tags, err := refFlvTags(w.Bytes()[13:])
					c.Check(err == nil && len(tags) == 3 && tags[0].typ == 18 && tags[0].ts == 0, "sizes %d %d %d: %d tags (%v)", len(v), len(a), len(md), len(tags), err)
					c.Check(bytes.Contains(tags[0].body, []byte(md)), "metadata of %d bytes not in the script tag", len(md))
					c.Check(tags[1].typ == 9 && tags[1].ts == 0 && bytes.Equal(tags[1].body, v) && tags[2].typ == 8 && tags[2].ts == 0 && bytes.Equal(tags[2].body, a), "headers of %d and %d bytes come out as %d and %d", len(v), len(a), len(tags[1].body), len(tags[2].body))
				}
				c.State(i)
			})
			return []*Scenario{sizes, large, wm, {Name: "histories", Note: fmt.Sprintf("every sequence of up to %d of %d operations, followed by a request", depth, len(ops)), Run: func(c *Ctx) {
				var ws [2]bytes.Buffer
				var seen [2]int
				cur := 0
				m := flv.NewMixer(&ws[0])
				var meta string
				var avc, aac []byte
				hasAvc, hasAac := false, false
				check := func(what string, want []refTag, head bool) {
					other := 1 - cur
					c.Check(ws[other].Len() == seen[other], "%s wrote %d bytes to the output that is not set", what, ws[other].Len()-seen[other])
					out := ws[cur].Bytes()[seen[cur]:]
					seen[cur] = ws[cur].Len()
					if head {
						flags := byte(0)
						if hasAvc {
							flags |= 1
						}
						if hasAac {
							flags |= 4
						}
						wh := []byte{'F', 'L', 'V', 1, flags, 0, 0, 0, 9, 0, 0, 0, 0}
						c.Check(len(out) >= 13 && bytes.Equal(out[:13], wh), "%s: file header %s, want %s", what, hx(out[:min(13, len(out))]), hx(wh))
						out = out[13:]
					}
					tags, err := refFlvTags(out)
					c.Check(err == nil && len(tags) == len(want), "%s: output reads as %v (%v), want %v", what, tags, err, want)
					for i := range tags {
						if want[i].typ == 18 {
							in := &refIn{b: tags[i].body}
							d := &ref0Dec{}
							s := ""
							_, st, why := refRun(func() interface{} {
								for in.pos < len(in.b) {
									s += canonRef(d.value(in)) + ";"
								}
								return nil
							})
							c.Check(st == refOK && tags[i].typ == 18 && tags[i].ts == want[i].ts && s == string(want[i].body), "%s: script tag %v reads as %s (%s), want %s", what, tags[i], s, why, want[i].body)
							continue
						}
						c.Check(tags[i].eq(want[i]), "%s: tag %d is %v, want %v", what, i, tags[i], want[i])
					}
				}
				request := func() {
					var want []refTag
					if meta != "" {
						want = append(want, refTag{18, 0, []byte(meta)})
					}
					if hasAvc {
						want = append(want, refTag{9, 0, avc})
					}
					if hasAac {
						want = append(want, refTag{8, 0, aac})
					}
					err := m.SetFlvHeader()
					c.Check(err == nil, "request: %v", err)
					check("request", want, true)
				}
				avcH := [][]byte{nil, {0x17, 0, 0, 0, 0, 1, 0x64}, append([]byte{0x17, 0, 0, 0, 0}, repBytes(700, 1)...), {9}}
				aacH := [][]byte{nil, {0xaf, 0, 0x12, 0x10}, {0xaf, 0, 0x11, 0x90, 1, 2, 3}, {9}}
				save := func(h []byte, pt int, f func(*packet.Packet) error) error {
					p := pkt(pt, append([]byte{}, h...))
					err := f(p)
					for i := range p.Data { // the saved header must not depend on the caller's buffer
						p.Data[i] = 0xEE
					}
					return err
				}
				n := c.Choose(depth + 1)
				for i := 0; i < n; i++ {
					o := ops[c.Choose(len(ops))]
					c.Logf("%s", o.name)
					c.Step(1)
					bad := o.arg == 3 && o.kind >= 1 && o.kind <= 3
					var err error
					switch o.kind {
					case 0:
						request()
						continue
					case 1:
						md := []amf.Object{nil, {"w": 1}, {"encoder": "x"}, {"f": func() {}}, {}, nil}[o.arg]
						err = m.SaveMetadata(md)
						if !bad {
							meta = "s10:onMetaData;" + []string{"", "{1:w=" + fnum(1) + ",}", "{7:encoder=s1:x,}", "", "{}", "{}"}[o.arg] + ";"
						}
						for k := range md {
							md[k] = "changed"
						}
					case 2:
						pt := packet.PktVideo
						if bad {
							pt = 7
						} else {
							avc, hasAvc = avcH[o.arg], true
						}
						err = save(avcH[o.arg], pt, m.SaveAVCHeader)
					case 3:
						pt := packet.PktAudio
						if bad {
							pt = 7
						} else {
							aac, hasAac = aacH[o.arg], true
						}
						err = save(aacH[o.arg], pt, m.SaveAACHeader)
					case 4:
						var want []refTag
						switch o.arg {
						case 7:
							bad = true
							err = m.Mux(pkt(7, []byte{1}), 5)
						case packet.PktMetadata:
							err = m.Mux(pkt(o.arg, cat(b0str("@setDataFrame"), b0str("mux"))), 5)
							want = []refTag{{18, 5, []byte("s3:mux;")}}
						default:
							d := []byte{byte(0x10 + o.arg), 1, 2}
							err = m.Mux(pkt(o.arg, d), 0x05000007)
							want = []refTag{{byte(9 - o.arg), 0x05000007, d}}
						}
						c.Check((err != nil) == bad, "%s: error %v", o.name, err)
						check(o.name, want, false)
						continue
					case 5:
						cur = 1 - cur
						m.SetWriter(&ws[cur])
					}
					c.Check((err != nil) == bad, "%s: error %v", o.name, err)
					check(o.name, nil, false)
				}
				request()
				c.Eval(1)
				c.State(meta, avc, aac, hasAvc, hasAac, cur)
				c.Outcome(ws[0].Bytes(), ws[1].Bytes())
			}}}
		},
	})

	register(&Prop{
		ID: "F03", Level: "exploration",
		Rule:        "Each evaluation parses one packet and compares every reported field and the media bytes with the bit layout of the FLV specification. Distinct outcomes are distinct field combinations.",
		Assumptions: []string{"Composition time and sequence-header flags are compared for AVC video of frame types 1 and 2; the AAC packet type for AAC"},
		Build: func(th bool) []*Scenario {
			var ss []*Scenario
			demux := func(c *Ctx, pt int, data []byte) (*packet.Packet, error) {
				p := pkt(pt, append([]byte{}, data...))
				err := flv.NewDemuxer().Demux(p)
				c.Check(bytes.Equal(p.Data, data), "demuxing changed the packet data")
				return p, err
			}
			cts := []uint32{0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffff, 0x800000, 0x800001, 0xfffffe, 0xffffff, 0x010203, 0xfedcba}
			ss = append(ss, chunked("video", "all values of the first two bytes x 17 composition times x media lengths 0..3, and all lengths 0..4", 65536, 256, func(c *Ctx, i int) {
				b0, b1 := byte(i>>8), byte(i)
				for _, ct := range cts {
					for ml := 0; ml <= 3; ml++ {
						data := cat([]byte{b0, b1}, be24(int(ct)), repBytes(ml, i))
						p, err := demux(c, packet.PktVideo, data)
						c.Check(err == nil, "%s: %v", hx(data), err)
						checkVideo(c, p, data)
					}
				}
				for l := 0; l < 5; l++ {
					data := cat([]byte{b0, b1, 1, 2})[:l]
					_, err := demux(c, packet.PktVideo, data)
					c.Check(err != nil, "video packet of %d bytes accepted", l)
				}
				c.Outcome("v", b0, b1)
			}))
			ss = append(ss, chunked("audio", "all values of the first two bytes x media lengths 0..3, and all lengths 0..1", 65536, 512, func(c *Ctx, i int) {
				b0, b1 := byte(i>>8), byte(i)
				for ml := 0; ml <= 3; ml++ {
					data := cat([]byte{b0, b1}, repBytes(ml, i))
					p, err := demux(c, packet.PktAudio, data)
					checkAudio(c, p, data, err)
				}
				for l := 0; l < 2; l++ {
					_, err := demux(c, packet.PktAudio, []byte{b0, b1}[:l])
					c.Check(err != nil, "audio packet of %d bytes accepted", l)
				}
				c.Outcome("a", b0, b1)
			}))
			stride := pick(3, 1)
			ss = append(ss, &Scenario{Name: "composition", Note: fmt.Sprintf("all 2^24 composition times with stride %d", stride), Run: func(c *Ctx) {
				j := c.Choose(256)
				p := pkt(packet.PktVideo, []byte{0x27, 1, 0, 0, 0, 7})
				d := flv.NewDemuxer()
				n := 0
				for x := j << 16; x < (j+1)<<16; x += stride {
					v := x + j%stride
					p.Data[2], p.Data[3], p.Data[4] = byte(v>>16), byte(v>>8), byte(v)
					err := d.Demux(p)
					want := int32(v)
					if v >= 1<<23 {
						want -= 1 << 24
					}
					if h, ok := p.Header.(packet.VideoPacketHeader); err != nil || !ok || h.CompositionTime() != want || len(p.Media) != 1 || p.Media[0] != 7 {
						c.Fail("composition time %#06x: %v, want %d, error %v, media %x", v, p.Header, want, err, p.Media)
					}
					n++
				}
				c.Eval(n)
				c.Outcome("c", j)
			}})
			ss = append(ss, chunked("media-lengths", "media lengths 0..3000 and around powers of two to 2^20, video and audio", 3001+100, 32, func(c *Ctx, i int) {
				n := i
				if i > 3000 {
					n = 1<<uint(12+(i-3001)/12) + (i-3001)%12 - 6
				}
				b := repBytes(n, 5)
				p, err := demux(c, packet.PktVideo, cat([]byte{0x17, 1, 0, 0, 1}, b))
				c.Check(err == nil && bytes.Equal(p.Media, b), "video media of %d bytes: %v", n, err)
				p, err = demux(c, packet.PktAudio, cat([]byte{0xaf, 1}, b))
				c.Check(err == nil && bytes.Equal(p.Media, b), "AAC media of %d bytes: %v", n, err)
				p, err = demux(c, packet.PktAudio, cat([]byte{0x2f}, b, []byte{1}))
				c.Check(err == nil && bytes.Equal(p.Media, cat(b, []byte{1})), "MP3 media of %d bytes: %v", n, err)
			}))
			type tp struct {
				pt int
				b  []byte
			}
			var al []tp
			for _, b := range [][]byte{{0x17, 0, 0, 0, 0}, {0x17, 1, 0xff, 0xff, 0xff}, {0x27, 1, 0, 1, 2, 9}, {0x17, 2, 1, 1, 1}, {0x27, 0, 0, 0, 9}, {0x57, 0, 0, 0, 0}, {0x37, 1, 1, 1, 1}, {0x12, 1, 7, 7, 7}, {0x22, 5, 1, 2, 3}, {0x17, 1}, {}} {
				al = append(al, tp{packet.PktVideo, b})
			}
			for _, b := range [][]byte{{0xaf, 0, 1}, {0xaf, 1}, {0x2f, 1}, {0x2e, 0}, {0x20, 5, 6}, {0xa0, 7}, {0xbf, 1}, {0xaf}, {}} {
				al = append(al, tp{packet.PktAudio, b})
			}
			al = append(al, tp{packet.PktMetadata, []byte{1, 2, 3}}, tp{7, []byte{1, 2, 3, 4, 5}}, tp{-1, nil})
			ss = append(ss, &Scenario{Name: "reuse", Note: fmt.Sprintf("every sequence of 1..%d of %d packets parsed with one tag object; each result equals that of a fresh tag", pick(3, 4), len(al)), Run: func(c *Ctx) {
				var tag flv.Tag
				n := 1 + c.Choose(pick(3, 4))
				for i := 0; i < n; i++ {
					t := al[c.Choose(len(al))]
					k, err := tag.ParseMediaTagHeader(t.b, t.pt)
					var fresh flv.Tag
					fk, ferr := fresh.ParseMediaTagHeader(t.b, t.pt)
					c.Check(k == fk && (err == nil) == (ferr == nil), "packet %s after others: %d %v, alone %d %v", hx(t.b), k, err, fk, ferr)
					if err == nil && t.pt <= packet.PktAudio && t.pt >= 0 {
						c.Check(tagFields(&tag, t.pt) == tagFields(&fresh, t.pt), "packet %s after others: %s, alone %s", hx(t.b), tagFields(&tag, t.pt), tagFields(&fresh, t.pt))
					}
					if t.pt == 7 || t.pt == -1 {
						c.Check(err != nil, "packet type %d accepted", t.pt)
					}
					c.Step(1)
				}
				c.Eval(n)
				c.Outcome(tagFields(&tag, 0), tagFields(&tag, 1))
			}})
			ss = append(ss, &Scenario{Name: "types", Note: "packet types -3..300 with valid video and audio bytes", Run: func(c *Ctx) {
				pt := c.Choose(304) - 3
				if pt >= packet.PktVideo && pt <= packet.PktMetadata {
					return
				}
				p := pkt(pt, []byte{0xaf, 1, 0, 0, 0, 1})
				c.Check(flv.NewDemuxer().Demux(p) != nil, "packet type %d accepted", pt)
				c.Eval(1)
			}})
			return ss
		},
	})
}

func tagFields(t *flv.Tag, pt int) string {
	if pt == packet.PktVideo {
		return fmt.Sprint(t.IsKeyFrame(), t.IsInterFrame(), t.IsSeqHdr(), t.IsEndOfSeq(), t.IsCodecAvc(), t.CodecID(), t.CompositionTime())
	}
	return fmt.Sprint(t.SoundFormat(), t.AACType(), t.IsSoundAAC(), t.IsSoundMP3(), t.IsAACSeqHdr())
}

func checkVideo(c *Ctx, p *packet.Packet, data []byte) {
	h, ok := p.Header.(packet.VideoPacketHeader)
	c.Check(ok, "video header has type %T", p.Header)
	ft, codec, at := data[0]>>4, data[0]&15, data[1]
	full := ft == 1 || ft == 2
	c.Check(h.IsKeyFrame() == (ft == 1) && h.IsInterFrame() == (ft == 2), "%s: key %v inter %v", hx(data), h.IsKeyFrame(), h.IsInterFrame())
	c.Check(h.CodecID() == codec && h.IsCodecAvc() == (codec == 7), "%s: codec %d avc %v", hx(data), h.CodecID(), h.IsCodecAvc())
	if !full {
		c.Check(!h.IsSeqHdr() && !h.IsEndOfSeq(), "%s: frame type %d reported as sequence header or end", hx(data), ft)
		// a disposable frame of a codec other than AVC and a command have no AVC header
		if ft == 5 || ft == 3 && codec != 7 {
			c.Check(bytes.Equal(p.Media, data[1:]), "%s: media %s", hx(data), hx(p.Media))
		}
		return
	}
	if codec != 7 {
		return
	}
	c.Check(h.IsSeqHdr() == (ft == 1 && at == 0) && h.IsEndOfSeq() == (ft == 1 && at == 2), "%s: sequence header %v end %v", hx(data), h.IsSeqHdr(), h.IsEndOfSeq())
	ct := int32(data[2])<<16 | int32(data[3])<<8 | int32(data[4])
	if ct >= 1<<23 {
		ct -= 1 << 24
	}
	if at != 1 {
		ct = 0
	}
	c.Check(h.CompositionTime() == ct, "%s: composition time %d, want %d", hx(data), h.CompositionTime(), ct)
	c.Check(bytes.Equal(p.Media, data[5:]), "%s: media %s", hx(data), hx(p.Media))
}

func checkAudio(c *Ctx, p *packet.Packet, data []byte, err error) {
	sf := data[0] >> 4
	if sf != 2 && sf != 10 {
		c.Check(err != nil, "%s: sound format %d accepted", hx(data), sf)
		return
	}
	c.Check(err == nil, "%s: %v", hx(data), err)
	h, ok := p.Header.(packet.AudioPacketHeader)
	c.Check(ok, "audio header has type %T", p.Header)
	c.Check(h.SoundFormat() == sf && h.IsSoundAAC() == (sf == 10) && h.IsSoundMP3() == (sf == 2), "%s: format %d aac %v mp3 %v", hx(data), h.SoundFormat(), h.IsSoundAAC(), h.IsSoundMP3())
	if sf == 10 {
		c.Check(h.AACType() == data[1] && h.IsAACSeqHdr() == (data[1] == 0), "%s: AAC type %d seqhdr %v", hx(data), h.AACType(), h.IsAACSeqHdr())
		c.Check(bytes.Equal(p.Media, data[2:]), "%s: media %s", hx(data), hx(p.Media))
	} else {
		c.Check(bytes.Equal(p.Media, data[1:]), "%s: media %s", hx(data), hx(p.Media))
	}
}
