package main

import (
	"bytes"
	"fmt"
	"io"
	"sync"

	"github.com/moggle-mog/goav/amf"
	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/container/ts"
	"github.com/moggle-mog/goav/gop"
	"github.com/moggle-mog/goav/packet"
	"github.com/moggle-mog/goav/parser"
	"github.com/moggle-mog/goav/parser/aac"
	"github.com/moggle-mog/goav/parser/h264"
	"github.com/moggle-mog/goav/sips"
)

// outSession is one output operation, or a history of them on one object. op
// runs one operation whose error is what the caller would see.
type outSession struct {
	name  string
	exact bool // the output does not depend on map order
	run   func(c *Ctx, w io.Writer, op func(name string, f func() error))
}

// sinkWriter is the destination of a session: it fails as chosen and remembers
// how often it reported an error.
type sinkWriter struct {
	buf   bytes.Buffer
	calls int
	errs  int
	at    int  // call number, or byte offset
	mode  int  // 0 refuse the call, 1 refuse at the byte, 2 take all bytes of the call yet report an error
	once  bool // only one failure
	fired bool
}

func (w *sinkWriter) Write(p []byte) (int, error) {
	k := w.calls
	w.calls++
	if w.fired {
		if w.once {
			return len(p), nil
		}
		w.errs++
		return 0, errInjected
	}
	switch {
	case w.at < 0:
	case w.mode == 0 && k == w.at:
		w.fired = true
		w.errs++
		return 0, errInjected
	case w.mode == 1 && w.buf.Len()+len(p) > w.at:
		n := w.at - w.buf.Len()
		w.buf.Write(p[:n])
		w.fired = true
		w.errs++
		return n, errInjected
	case w.mode == 2 && k == w.at:
		w.buf.Write(p)
		w.fired = true
		w.errs++
		return len(p), errInjected
	}
	w.buf.Write(p)
	return len(p), nil
}

func outWhat(mode int, once bool, at int) string {
	s := []string{"write call %d refused", "refused at byte %d", "write call %d taken but reported as failed"}[mode]
	if once {
		s += " once"
	}
	return fmt.Sprintf(s, at)
}

// faultOne runs the session with one fault and judges every operation in it.
func faultOne(c *Ctx, s outSession, base []byte, mode int, once bool, at int) {
	w := &sinkWriter{at: at, mode: mode, once: once}
	what := outWhat(mode, once, at)
	s.run(c, w, func(name string, f func() error) {
		before := w.errs
		err := f()
		c.Check(w.errs == before || err != nil, "%s: %s: destination %s, but %s reports success", s.name, name, what, name)
	})
	c.Check(w.fired || !s.exact, "%s: the fault (%s) was never reached", s.name, what)
	if s.exact {
		c.Check(bytes.HasPrefix(base, w.buf.Bytes()), "%s: destination %s: delivered %s, which does not begin %s", s.name, what, hx(w.buf.Bytes()), hx(base))
	}
	c.Eval(1)
	c.Step(w.calls)
}

func one(name string, f func(c *Ctx, w io.Writer) error) outSession {
	return outSession{name, true, func(c *Ctx, w io.Writer, op func(string, func() error)) {
		op(name, func() error { return f(c, w) })
	}}
}

func setup(c *Ctx, what string, err error) {
	c.Check(err == nil, "%s: %v", what, err)
}

// faultValues: values whose encodings do not depend on map order.
func faultValues() []aval {
	var l []aval
	for _, v := range leafValues() {
		if len(v.c0) < 600 {
			l = append(l, v)
		}
	}
	kv := func(k string, v aval) aval { return mkObj([]string{k}, []aval{v}) }
	deep := mkArray([]aval{mkStr("a"), kv("k", mkArray([]aval{mkNum(1, 1), mkStr("a")})), mkTyped("T", []string{"p"}, []aval{mkNum(2.5, 2.5)})})
	l = append(l, deep, kv("key", deep), mkTyped("Cls", []string{"z"}, []aval{deep}), mkArray([]aval{mkBytes([]byte{1, 2, 3}), mkTime(utc(77)), mkStr(rep(300))}),
		mkStr(rep(65535)), mkStr(rep(65536)), mkBytes(repBytes(700, 1)))
	return l
}

func amfOuts() []outSession {
	var l []outSession
	for _, v := range faultValues() {
		v := v
		l = append(l, one("AMF0 Encode "+v.name, func(c *Ctx, w io.Writer) error { _, err := amf.NewEnDecAMF0().Encode(w, v.v); return err }),
			one("AMF3 Encode "+v.name, func(c *Ctx, w io.Writer) error { _, err := amf.NewEnDecAMF3().Encode(w, v.v); return err }),
			one("AMF0 EncodeWithAMF3 "+v.name, func(c *Ctx, w io.Writer) error { _, err := amf.NewEnDecAMF0().EncodeWithAMF3(w, v.v); return err }))
	}
	for _, o := range []amf.Object{nil, {}, {"k": "v"}, {"list": amf.Array{1, "x", amf.Object{"z": nil}}}} {
		o := o
		l = append(l, one(fmt.Sprintf("AMF0 EncodeEcmaArray %v", o), func(c *Ctx, w io.Writer) error { _, err := amf.NewEnDecAMF0().EncodeEcmaArray(w, o); return err }))
	}
	l = append(l,
		one("AMF0 EncodeReference", func(c *Ctx, w io.Writer) error { _, err := amf.NewEnDecAMF0().EncodeReference(w, 0x1234); return err }),
		one("AMF0 EncodeUndefined", func(c *Ctx, w io.Writer) error { _, err := amf.NewEnDecAMF0().EncodeUndefined(w); return err }),
		one("AMF0 EncodeUnsupported", func(c *Ctx, w io.Writer) error { _, err := amf.NewEnDecAMF0().EncodeUnsupported(w); return err }),
		one("AMF0 EncodeXmlDocument", func(c *Ctx, w io.Writer) error {
			_, err := amf.NewEnDecAMF0().EncodeXmlDocument(w, "<a>b</a>")
			return err
		}),
		one("AMF0 EncodeXmlDocument empty", func(c *Ctx, w io.Writer) error { _, err := amf.NewEnDecAMF0().EncodeXmlDocument(w, ""); return err }),
		one("AMF0 EncodeBatch", func(c *Ctx, w io.Writer) error {
			return amf.NewEnDecAMF0().EncodeBatch(w, "connect", 1, amf.Object{"app": "live"}, nil, true, amf.Array{1, "2"})
		}),
		one("AMF3 EncodeBatch", func(c *Ctx, w io.Writer) error {
			return amf.NewEnDecAMF3().EncodeBatch(w, "connect", 1, amf.Object{"app": "live"}, nil, true, amf.Array{1, "2"}, "connect", []byte{1, 2})
		}),
		outSession{"AMF0 history on one encoder", true, func(c *Ctx, w io.Writer, op func(string, func() error)) {
			e := amf.NewEnDecAMF0()
			for i, v := range []interface{}{"a", 1.5, amf.Object{"k": "v"}, amf.Array{"x", nil}, amf.TypedObject{Type: "T", Object: amf.Object{"p": 1}}, true, []byte{1, 2}} {
				op(fmt.Sprintf("Encode %d", i), func() error { _, err := e.Encode(w, v); return err })
			}
			op("EncodeBatch", func() error { return e.EncodeBatch(w, 1, 2, "3") })
		}},
		outSession{"AMF3 history on one encoder", true, func(c *Ctx, w io.Writer, op func(string, func() error)) {
			e := amf.NewEnDecAMF3()
			for i, v := range []interface{}{"a", 1.5, amf.Object{"k": "v"}, amf.Array{"x", nil}, amf.TypedObject{Type: "T", Object: amf.Object{"p": 1}}, true, []byte{1, 2}, 268435455} {
				op(fmt.Sprintf("Encode %d", i), func() error { _, err := e.Encode(w, v); return err })
			}
			op("EncodeBatch", func() error { return e.EncodeBatch(w, 1, 2, "3") })
		}},
	)
	wide := amf.Object{"a": 1, "bb": "two", "ccc": amf.Array{3}, "dddd": amf.Object{"x": 1, "y": nil}, "e": true}
	for _, f := range []struct {
		n string
		f func(c *Ctx, w io.Writer) error
	}{
		{"AMF0 Encode wide object", func(c *Ctx, w io.Writer) error { _, err := amf.NewEnDecAMF0().Encode(w, wide); return err }},
		{"AMF3 Encode wide object", func(c *Ctx, w io.Writer) error { _, err := amf.NewEnDecAMF3().Encode(w, wide); return err }},
		{"AMF0 EncodeEcmaArray wide", func(c *Ctx, w io.Writer) error { _, err := amf.NewEnDecAMF0().EncodeEcmaArray(w, wide); return err }},
		{"AMF0 Encode wide typed object", func(c *Ctx, w io.Writer) error {
			_, err := amf.NewEnDecAMF0().Encode(w, amf.TypedObject{Type: "T", Object: wide})
			return err
		}},
	} {
		s := one(f.n, f.f)
		s.exact = false
		l = append(l, s)
	}
	return l
}

func flvOuts() []outSession {
	var l []outSession
	for i, k := range flvAlphabet() {
		if !k.ok {
			continue
		}
		k := k
		l = append(l, one(fmt.Sprintf("FLV Mux packet %d type %d", i, k.pt), func(c *Ctx, w io.Writer) error {
			return flv.NewMixer(w).Mux(pkt(k.pt, k.data), 0x1020304)
		}))
	}
	vh, ah := vidData(true, true, 0, avcc([]byte{0x67, 1, 2, 3}, []byte{0x68, 1})), aacHeaderBytes(4)
	for mask := 0; mask < 8; mask++ {
		mask := mask
		l = append(l, one(fmt.Sprintf("FLV SetFlvHeader with saved set %d", mask), func(c *Ctx, w io.Writer) error {
			var ok bytes.Buffer
			m := flv.NewMixer(&ok)
			if mask&1 != 0 {
				setup(c, "SaveMetadata", m.SaveMetadata(amf.Object{"width": 640}))
			}
			if mask&2 != 0 {
				setup(c, "SaveAVCHeader", m.SaveAVCHeader(pkt(packet.PktVideo, vh)))
			}
			if mask&4 != 0 {
				setup(c, "SaveAACHeader", m.SaveAACHeader(pkt(packet.PktAudio, ah)))
			}
			m.SetWriter(w)
			return m.SetFlvHeader()
		}))
	}
	l = append(l, outSession{"FLV stream on one mixer", true, func(c *Ctx, w io.Writer, op func(string, func() error)) {
		m := flv.NewMixer(w)
		setup(c, "SaveMetadata", m.SaveMetadata(amf.Object{"width": 640}))
		setup(c, "SaveAVCHeader", m.SaveAVCHeader(pkt(packet.PktVideo, vh)))
		setup(c, "SaveAACHeader", m.SaveAACHeader(pkt(packet.PktAudio, ah)))
		op("SetFlvHeader", m.SetFlvHeader)
		for i, k := range flvAlphabet() {
			if k.ok {
				p := pkt(k.pt, k.data)
				op(fmt.Sprintf("Mux %d", i), func() error { return m.Mux(p, uint32(i)) })
			}
		}
		op("SetFlvHeader again", m.SetFlvHeader)
	}})
	return l
}

type pktCase struct {
	name string
	pt   int
	data []byte
}

// mediaPackets: FLV packets a TS mixer that has both headers accepts.
func mediaPackets() []pktCase {
	return []pktCase{
		{"key frame", packet.PktVideo, vidData(true, false, 0, nal(append([]byte{0x65}, repBytes(400, 1)...)...))},
		{"small key frame", packet.PktVideo, vidData(true, false, 3, nal(0x65, 1, 2))},
		{"key frame with own parameter sets", packet.PktVideo, vidData(true, false, 0, cat(nal(0x67, 9), nal(0x68, 8), nal(0x65, 7)))},
		{"inter frame", packet.PktVideo, vidData(false, false, 40, cat(nal(0x09, 0x10), nal(0x06, 5), nal(append([]byte{0x41}, repBytes(250, 2)...)...)))},
		{"AAC frame", packet.PktAudio, cat([]byte{0xaf, 1}, repBytes(333, 3))},
		{"small AAC frame", packet.PktAudio, []byte{0xaf, 1, 0x21}},
	}
}

func headerPackets() []pktCase {
	return []pktCase{
		{"video header", packet.PktVideo, vidData(true, true, 0, avcc([]byte{0x67, 0x4d, 1, 2}, []byte{0x68, 0xee, 3}))},
		{"audio header", packet.PktAudio, aacHeaderBytes(3)},
	}
}

// feedHeaders gives a mixer both sequence headers.
func feedHeaders(c *Ctx, m *ts.Mixer) {
	hs := headerPackets()
	setup(c, "SaveAVCHeader", m.SaveAVCHeader(mustDemux(c, hs[0].pt, hs[0].data)))
	setup(c, "SaveAACHeader", m.SaveAACHeader(mustDemux(c, hs[1].pt, hs[1].data)))
}

func tsOuts() []outSession {
	var l []outSession
	for _, k := range mediaPackets() {
		k := k
		l = append(l, one("TS Mux "+k.name, func(c *Ctx, w io.Writer) error {
			var ok bytes.Buffer
			m := ts.NewMixer(&ok)
			feedHeaders(c, m)
			p := mustDemux(c, k.pt, k.data)
			setup(c, "Update", m.Update(p, 1000, 40))
			m.SetWriter(w)
			return m.Mux(p)
		}))
	}
	for mask := 0; mask < 8; mask++ {
		mask := mask
		l = append(l, one(fmt.Sprintf("TS SetTsHeader with saved set %d", mask), func(c *Ctx, w io.Writer) error {
			var ok bytes.Buffer
			m := ts.NewMixer(&ok)
			hs := headerPackets()
			if mask&1 != 0 {
				setup(c, "SaveMetadata", m.SaveMetadata(amf.Object{"Provider": "p", "Service": "s"}))
			}
			if mask&2 != 0 {
				setup(c, "SaveAVCHeader", m.SaveAVCHeader(mustDemux(c, hs[0].pt, hs[0].data)))
			}
			if mask&4 != 0 {
				setup(c, "SaveAACHeader", m.SaveAACHeader(mustDemux(c, hs[1].pt, hs[1].data)))
			}
			m.SetWriter(w)
			return m.SetTsHeader()
		}))
	}
	for _, k := range tsKinds {
		for _, n := range []int{1, 20, 157, 160, 164, 170, 190, 340, 600} {
			k, n := k, n
			l = append(l, one(fmt.Sprintf("TS Muxer.Mux %s of %d bytes", k.name, n), func(c *Ctx, w io.Writer) error {
				return ts.NewMuxer().Mux(tsPacketOf(c, k, repBytes(n, n)), 9000, 9000+k.ct, w)
			}))
		}
	}
	l = append(l, outSession{"TS stream on one mixer", true, func(c *Ctx, w io.Writer, op func(string, func() error)) {
		m := ts.NewMixer(w)
		setup(c, "SaveMetadata", m.SaveMetadata(amf.Object{"Provider": "p"}))
		feedHeaders(c, m)
		op("SetTsHeader", m.SetTsHeader)
		for i, k := range mediaPackets() {
			p := mustDemux(c, k.pt, k.data)
			setup(c, "Update", m.Update(p, uint32(i*40), 0))
			op("Mux "+k.name, func() error { return m.Mux(p) })
			if i == 3 {
				op("SetTsHeader again", m.SetTsHeader)
			}
		}
	}})
	return l
}

func parserOuts() []outSession {
	var l []outSession
	ready := func(c *Ctx) *parser.CodecParser {
		cp := parser.NewCodecParser()
		for _, h := range headerPackets() {
			setup(c, h.name, cp.Parse(mustDemux(c, h.pt, h.data), io.Discard))
		}
		return cp
	}
	for _, k := range mediaPackets() {
		k := k
		l = append(l, one("parse "+k.name, func(c *Ctx, w io.Writer) error { return ready(c).Parse(mustDemux(c, k.pt, k.data), w) }))
	}
	kinds := [][]byte{nal(0x65, 1, 2), nal(0x41, 3), nal(0x06, 4, 5), nal(0x67, 6), nal(0x68, 7), nal(0x09, 8)}
	for i := 0; i < 6*6*6; i++ {
		media := cat(kinds[i%6], kinds[i/6%6], kinds[i/36])
		l = append(l, one(fmt.Sprintf("h264 parse of units %d %d %d", i%6, i/6%6, i/36), func(c *Ctx, w io.Writer) error {
			p := h264.NewParser()
			setup(c, "header", p.Parse(avcc([]byte{0x67, 1}, []byte{0x68, 2}), true, io.Discard))
			return p.Parse(media, false, w)
		}))
	}
	for _, n := range []int{1, 2, 100, 1000} {
		n := n
		l = append(l, one(fmt.Sprintf("aac parse of %d bytes", n), func(c *Ctx, w io.Writer) error {
			p := aac.NewParser()
			setup(c, "header", p.Parse([]byte{0x12, 0x10}, flv.AacSeqHdr, io.Discard))
			return p.Parse(repBytes(n, n), flv.AacRaw, w)
		}))
	}
	l = append(l, outSession{"packets through one parser", true, func(c *Ctx, w io.Writer, op func(string, func() error)) {
		cp := ready(c)
		for _, k := range mediaPackets() {
			p := mustDemux(c, k.pt, k.data)
			op("Parse "+k.name, func() error { return cp.Parse(p, w) })
		}
	}})
	return l
}

// guarded places data inside a larger buffer of the caller; check tells whether
// any byte of it changed.
type guarded struct{ whole, keep []byte }

func guard(data []byte) (*guarded, []byte) {
	g := &guarded{whole: make([]byte, 0, len(data)+64)}
	g.whole = append(g.whole, repBytes(16, 91)...)
	g.whole = append(g.whole, data...)
	g.whole = append(g.whole, repBytes(48, 92)...)
	g.keep = append([]byte{}, g.whole...)
	return g, g.whole[16 : 16+len(data)]
}

func (g *guarded) check(c *Ctx, what string) {
	if !bytes.Equal(g.whole, g.keep) {
		i := firstDiff(g.whole, g.keep)
		where := "in the data"
		if i < 16 || i >= len(g.whole)-48 {
			where = "next to the data in the caller's buffer"
		}
		c.Fail("%s changed a byte %s (offset %d: %02x became %02x)", what, where, i-16, g.keep[i], g.whole[i])
	}
}

// mediaUser is everything that takes packets.
type mediaUser struct {
	flvOut, tsOut bytes.Buffer
	flv           *flv.Mixer
	ts            *ts.Mixer
	mux           *ts.Muxer
	cp            *parser.CodecParser
	gop           *gop.Cache
}

func newMediaUser() *mediaUser {
	u := &mediaUser{mux: ts.NewMuxer(), cp: parser.NewCodecParser(), gop: gop.NewCache(2)}
	u.flv, u.ts = flv.NewMixer(&u.flvOut), ts.NewMixer(&u.tsOut)
	return u
}

// mediaOps: every operation that is handed a packet. Errors are legitimate for
// some packets; only the caller's bytes are judged here.
var mediaOps = []struct {
	name string
	f    func(u *mediaUser, p *packet.Packet)
}{
	{"FLV Mux", func(u *mediaUser, p *packet.Packet) { _ = u.flv.Mux(p, 40) }},
	{"FLV SaveAVCHeader", func(u *mediaUser, p *packet.Packet) { _ = u.flv.SaveAVCHeader(p) }},
	{"FLV SaveAACHeader", func(u *mediaUser, p *packet.Packet) { _ = u.flv.SaveAACHeader(p) }},
	{"FLV SetFlvHeader", func(u *mediaUser, p *packet.Packet) { _ = u.flv.SetFlvHeader() }},
	{"FLV Demux", func(u *mediaUser, p *packet.Packet) { _ = flv.NewDemuxer().Demux(p) }},
	{"TS Mux", func(u *mediaUser, p *packet.Packet) { _ = u.ts.Mux(p) }},
	{"TS SaveAVCHeader", func(u *mediaUser, p *packet.Packet) { _ = u.ts.SaveAVCHeader(p) }},
	{"TS SaveAACHeader", func(u *mediaUser, p *packet.Packet) { _ = u.ts.SaveAACHeader(p) }},
	{"TS SetTsHeader", func(u *mediaUser, p *packet.Packet) { _ = u.ts.SetTsHeader() }},
	{"TS Update", func(u *mediaUser, p *packet.Packet) { _ = u.ts.Update(p, 1000, 40) }},
	{"TS Muxer.Mux", func(u *mediaUser, p *packet.Packet) {
		if p.Header != nil {
			var b bytes.Buffer
			_ = u.mux.Mux(p, 9000, 9000, &b)
		}
	}},
	{"Parse", func(u *mediaUser, p *packet.Packet) { var b bytes.Buffer; _ = u.cp.Parse(p, &b) }},
	{"cache Write and replay into FLV", func(u *mediaUser, p *packet.Packet) {
		if p.Header != nil {
			_ = u.gop.Write(p)
		}
		w := &pktSink{failAt: -1}
		_ = u.gop.SendTo(w)
		for _, q := range w.got {
			_ = u.flv.Mux(q, 1)
		}
	}},
	{"metadata helpers", func(u *mediaUser, p *packet.Packet) {
		_, _ = amf.AddMetaHeader(p.Data, amf.NewEnDecAMF0())
		_, _ = amf.DelMetaHeader(p.Data, amf.NewEnDecAMF0())
	}},
}

// userPackets: the alphabet for N01.
func userPackets() []pktCase {
	md := cat(b0str("onMetaData"), []byte{8, 0, 0, 0, 1}, b0utf("width"), b0num(640), []byte{0, 0, 9})
	l := append(headerPackets(), mediaPackets()...)
	return append(l,
		pktCase{"metadata", packet.PktMetadata, md},
		pktCase{"metadata with command", packet.PktMetadata, cat(b0str("@setDataFrame"), md)},
		pktCase{"MP3 frame", packet.PktAudio, cat([]byte{0x2f, 0xff, 0xfb, 0x90}, repBytes(60, 5))},
		pktCase{"frame with start code", packet.PktVideo, vidData(true, false, 0, cat([]byte{0, 0, 0, 1, 0x65}, repBytes(40, 6)))},
		pktCase{"broken frame", packet.PktVideo, vidData(true, false, 0, []byte{0, 0, 0, 9, 0x65})},
		pktCase{"empty AVC frame", packet.PktVideo, vidData(false, false, 0, nil)},
		pktCase{"end of sequence", packet.PktVideo, []byte{0x17, 2, 0, 0, 0}},
	)
}

func init() {
	register(&Prop{
		ID: "W01", Level: "fault_enumeration",
		Rule: "Every output operation and history is run once without faults and then again for every write call (refused, or taken but reported as failed) and every byte offset of its output, with the destination failing once or for good; each operation during which the destination reported an error must return an error, and what was delivered before must begin the fault-free output.",
		Build: func(th bool) []*Scenario {
			group := func(name, note string, mk func() []outSession) *Scenario {
				var once sync.Once
				var l []outSession
				return &Scenario{Name: name, Note: note + ": 6 kinds of failure at every write call and every output byte", Run: func(c *Ctx) {
					once.Do(func() { l = mk() })
					s := l[c.Choose(len(l))]
					w := &sinkWriter{at: -1}
					s.run(c, w, func(name string, f func() error) {
						err := f()
						c.Check(err == nil, "%s: %s without faults: %v", s.name, name, err)
					})
					base := append([]byte{}, w.buf.Bytes()...)
					kind := c.Choose(6)
					mode, single := kind/2, kind%2 == 1
					n := w.calls
					if mode == 1 {
						n = len(base)
					}
					step := 1
					if mode == 1 && n > 8192 {
						step = 0 // long plain strings: the edges, and every 97th byte
					}
					for at := 0; at < n; {
						faultOne(c, s, base, mode, single, at)
						if step == 1 || at < 300 || at > n-300 {
							at++
						} else {
							at += 97
						}
					}
					c.Outcome(s.name, kind, n)
					c.Logf("%s: %d faults of kind %q", s.name, n, outWhat(mode, single, 0))
				}}
			}
			ss := []*Scenario{
				group("amf", "every AMF0 and AMF3 encoding operation over all leaf values and nested values, batches, and histories on one encoder", amfOuts),
				group("flv", "muxing each packet kind, file headers with each set of saved headers, and a whole stream", flvOuts),
				group("ts", "muxing each packet kind, tables with each set of saved headers, single units around packet boundaries, and a whole stream", tsOuts),
				group("parsers", "every access unit of 3 NAL unit kinds, AAC frames, packets through the codec parser", parserOuts),
			}
			d := pick(5, 7)
			ss = append(ss, &Scenario{Name: "replays", Note: fmt.Sprintf("caches for 0..3 groups x every history of %d packets (metadata, headers, key, inter), replay failing at every packet, once or for good", d), Run: func(c *Ctx) {
				n := c.Choose(4)
				g := gop.NewCache(n)
				m := &fullModel{g: gopModel{n: n}}
				for i := 0; i < d; i++ {
					k := c.Choose(5)
					var p *packet.Packet
					switch k {
					case 0:
						p = pkt(packet.PktMetadata, []byte{2, 0, 0})
						m.meta = p
					case 1:
						p = mustDemux(c, packet.PktVideo, headerPackets()[0].data)
						m.vhdr = p
					case 2:
						p = mustDemux(c, packet.PktAudio, headerPackets()[1].data)
						m.ahdr = p
					default:
						p = mustDemux(c, packet.PktVideo, vidData(k == 3, false, 0, nal(0x41, 1)))
						m.g.write(p, k == 3)
					}
					p.TimeStamp = uint32(i)
					_ = g.Write(p)
					c.Step(1)
				}
				all := m.flat()
				for at := 0; at < len(all); at++ {
					for once := 0; once < 2; once++ {
						w := &pktSink{failAt: at, once: once == 1}
						err := g.SendTo(w)
						c.Check(err != nil, "replay of%s reports success although packet %d was refused", pktNames(all), at)
						c.Check(len(w.got) >= at && samePkts(w.got[:at], all[:at]), "replay failing at packet %d delivered%s of%s", at, pktNames(w.got), pktNames(all))
						c.Eval(1)
					}
				}
				checkReplay(c, g, all, "after failed replays")
				c.Outcome(len(all), pktNames(all), n)
			}})
			return ss
		},
	})

	register(&Prop{
		ID: "N01", Level: "model_checking",
		Rule: "Every sequence of operations within the bounds is applied to packets whose data lies inside a larger guarded buffer; after each operation every byte of the buffer is compared with what the caller wrote, and outputs of repeated muxing are compared with each other. A state is the operations applied so far to the packet kind.",
		Build: func(th bool) []*Scenario {
			pk := userPackets()
			d := pick(4, 5)
			var ss []*Scenario
			ss = append(ss, &Scenario{Name: "operations", Note: fmt.Sprintf("%d packet kinds x every sequence of %d of %d operations on one packet and one set of objects", len(pk), d, len(mediaOps)), Run: func(c *Ctx) {
				k := pk[c.Choose(len(pk))]
				g, data := guard(k.data)
				u := newMediaUser()
				// the objects already hold headers
				for _, h := range headerPackets() {
					p := mustDemux(c, h.pt, h.data)
					_ = u.cp.Parse(p, io.Discard)
				}
				feedHeaders(c, u.ts)
				p := pkt(k.pt, data)
				seq := k.name
				for i := 0; i < d; i++ {
					o := c.Choose(len(mediaOps))
					mediaOps[o].f(u, p)
					seq += ", " + mediaOps[o].name
					g.check(c, seq)
					c.Check(len(p.Data) == len(k.data) && (len(data) == 0 || &p.Data[0] == &data[0]), "%s: the packet's Data was replaced", seq)
					c.Step(1)
					c.State(seq)
				}
				c.Eval(d)
				c.Outcome(u.flvOut.Bytes(), u.tsOut.Bytes())
				c.Logf("%s", seq)
			}})
			ss = append(ss, &Scenario{Name: "streams", Note: fmt.Sprintf("every sequence of %d packets, each sent to an FLV mixer, a TS mixer and a cache that share them, then replayed to new mixers", pick(4, 5)), Run: func(c *Ctx) {
				n := pick(4, 5)
				u := newMediaUser()
				setup(c, "SaveMetadata", u.flv.SaveMetadata(amf.Object{"a": 1}))
				feedHeaders(c, u.ts)
				u.gop = gop.NewCache(4)
				var gs []*guarded
				var sent []*packet.Packet
				for i := 0; i < n; i++ {
					k := pk[c.Choose(len(pk))]
					g, data := guard(k.data)
					gs = append(gs, g)
					p := vary(&packet.Packet{Type: k.pt, Data: data, TimeStamp: uint32(i)}, i)
					if k.pt != packet.PktMetadata && flv.NewDemuxer().Demux(p) != nil {
						continue
					}
					_ = u.flv.Mux(p, p.TimeStamp)
					if k.pt != packet.PktMetadata {
						if u.ts.Update(p, p.TimeStamp, 0) == nil {
							_ = u.ts.Mux(p)
						}
					}
					_ = u.gop.Write(p)
					sent = append(sent, p)
					for j, g := range gs {
						g.check(c, fmt.Sprintf("sending %s: packet %d", k.name, j))
					}
					c.Step(3)
				}
				var again bytes.Buffer
				m := flv.NewMixer(&again)
				for _, p := range sent {
					_ = m.Mux(p, p.TimeStamp)
				}
				c.Check(bytes.Equal(again.Bytes(), u.flvOut.Bytes()), "muxing the same packets into FLV again gives %s, first %s", hx(again.Bytes()), hx(u.flvOut.Bytes()))
				w := &pktSink{failAt: -1}
				c.Check(u.gop.SendTo(w) == nil, "replay failed")
				for _, p := range w.got {
					_ = m.Mux(p, 0)
				}
				for j, g := range gs {
					g.check(c, fmt.Sprintf("replaying: packet %d", j))
				}
				c.Eval(n)
				c.Outcome(u.flvOut.Bytes())
				c.State(u.tsOut.Bytes())
			}})
			ss = append(ss, &Scenario{Name: "repeated", Note: fmt.Sprintf("%d packet kinds sent 1..4 times through demuxer and fresh TS mixer, and through one FLV mixer: same media each time", len(pk)), Run: func(c *Ctx) {
				k := pk[c.Choose(len(pk))]
				if k.pt == packet.PktMetadata {
					return
				}
				g, data := guard(k.data)
				var first, firstFlv []byte
				var firstErr string
				u := newMediaUser()
				for r := 0; r < 4; r++ {
					p := pkt(k.pt, data)
					err := flv.NewDemuxer().Demux(p)
					var out bytes.Buffer
					m := ts.NewMixer(&out)
					feedHeaders(c, m)
					if err == nil {
						err = m.Update(p, 1000, 0)
					}
					if err == nil {
						err = m.Mux(p)
					}
					e := fmt.Sprint(err != nil)
					u.flvOut.Reset()
					_ = u.flv.Mux(p, 1000)
					if r == 0 {
						first, firstErr, firstFlv = append([]byte{}, out.Bytes()...), e, append([]byte{}, u.flvOut.Bytes()...)
					}
					c.Check(e == firstErr, "%s: refused %s on run %d, %s on the first", k.name, e, r, firstErr)
					c.Check(bytes.Equal(out.Bytes(), first), "%s: TS run %d differs at byte %d", k.name, r, firstDiff(out.Bytes(), first))
					c.Check(bytes.Equal(u.flvOut.Bytes(), firstFlv), "%s: FLV run %d differs", k.name, r)
					g.check(c, k.name)
					c.Step(2)
				}
				c.Eval(4)
				c.Outcome(first, firstFlv)
			}})
			ss = append(ss, chunked("sizes", fmt.Sprintf("key, inter and AAC frames of every size 1..%d, and every NAL unit type byte, through all operations", pick(700, 4000)), 3*pick(700, 4000)+256, 16, func(c *Ctx, i int) {
				var k pktCase
				if i < 256 {
					k = pktCase{fmt.Sprintf("NAL unit type byte %02x", i), packet.PktVideo, vidData(true, false, 0, nal(byte(i), 1, 2))}
				} else {
					i -= 256
					b := repBytes(i/3+1, i)
					switch i % 3 {
					case 0, 1:
						b[0] = []byte{0x65, 0x41}[i%3]
						k = pktCase{fmt.Sprintf("frame of %d bytes", len(b)), packet.PktVideo, vidData(i%3 == 0, false, 0, nal(b...))}
					case 2:
						k = pktCase{fmt.Sprintf("AAC frame of %d bytes", len(b)), packet.PktAudio, cat([]byte{0xaf, 1}, b)}
					}
				}
				g, data := guard(k.data)
				u := newMediaUser()
				feedHeaders(c, u.ts)
				p := pkt(k.pt, data)
				_ = flv.NewDemuxer().Demux(p)
				for _, o := range mediaOps {
					o.f(u, p)
					g.check(c, k.name+": "+o.name)
				}
				c.Outcome(u.tsOut.Bytes())
				c.Step(len(mediaOps))
			}))
			return append(ss, callerValues()...)
		},
	})
}

// callerValues are the scenarios of N01 about values other than media: what
// an encoder, a metadata saver or a serialiser is given stays as it is.
func callerValues() []*Scenario {
	show := func(v interface{}) string { return fmt.Sprintf("%#v", v) }
	leaves := leafValues()
	wraps := []struct {
		name string
		f    func(v interface{}) interface{}
	}{
		{"itself", func(v interface{}) interface{} { return v }},
		{"in an array", func(v interface{}) interface{} { return amf.Array{1.5, v, "x"} }},
		{"in an object", func(v interface{}) interface{} { return amf.Object{"b": 1, "a": v, "": "e"} }},
		{"in a typed object", func(v interface{}) interface{} {
			return amf.TypedObject{Type: "C", Object: amf.Object{"v": v, "w": amf.Array{v}}}
		}},
		{"deep", func(v interface{}) interface{} {
			return amf.Array{amf.Object{"o": amf.Object{"p": amf.Array{v, v}}}, amf.Object{}, []interface{}{v, amf.Array{}}}
		}},
		{"next to what cannot be encoded", func(v interface{}) interface{} {
			return amf.Array{v, amf.Object{"a": v, "z": struct{ X int }{1}}, v}
		}},
	}
	entries := []struct {
		name string
		f    func(a *amf.EnDecAMF0, b *amf.EnDecAMF3, w io.Writer, v interface{})
	}{
		{"AMF0 Encode", func(a *amf.EnDecAMF0, b *amf.EnDecAMF3, w io.Writer, v interface{}) { a.Encode(w, v) }},
		{"AMF0 EncodeBatch", func(a *amf.EnDecAMF0, b *amf.EnDecAMF3, w io.Writer, v interface{}) {
			args := []interface{}{"cmd", v, v}
			a.EncodeBatch(w, args...)
		}},
		{"AMF0 EncodeEcmaArray", func(a *amf.EnDecAMF0, b *amf.EnDecAMF3, w io.Writer, v interface{}) {
			if o, ok := v.(amf.Object); ok {
				a.EncodeEcmaArray(w, o)
			} else {
				a.EncodeEcmaArray(w, amf.Object{"v": v})
			}
		}},
		{"AMF0 EncodeWithAMF3", func(a *amf.EnDecAMF0, b *amf.EnDecAMF3, w io.Writer, v interface{}) { a.EncodeWithAMF3(w, v) }},
		{"AMF3 Encode", func(a *amf.EnDecAMF0, b *amf.EnDecAMF3, w io.Writer, v interface{}) { b.Encode(w, v) }},
		{"AMF3 EncodeBatch", func(a *amf.EnDecAMF0, b *amf.EnDecAMF3, w io.Writer, v interface{}) { b.EncodeBatch(w, v, "s", v) }},
	}
	limits := []int{-1, 0, 1, 2, 5, 9}
	nl := len(leaves)
	ss := []*Scenario{chunked("encoded values", fmt.Sprintf("%d values in %d surroundings through each of %d encoder entries, to a writer that accepts everything or fails after %v bytes, twice with one encoder", nl, len(wraps), len(entries), limits[1:]), nl*len(wraps)*len(entries), 32, func(c *Ctx, i int) {
		lf := leaves[i/len(entries)/len(wraps)]
		wr := wraps[i/len(entries)%len(wraps)]
		en := entries[i%len(entries)]
		v := wr.f(lf.v)
		was := show(v)
		for _, lim := range limits {
			a, b := amf.NewEnDecAMF0(), amf.NewEnDecAMF3()
			for n := 0; n < 2; n++ {
				w := &faultWriter{failCall: -1, failByte: lim}
				en.f(a, b, w, v)
				if now := show(v); now != was {
					c.Fail("%s of %s %s (writer limit %d): the value became %s, was %s", en.name, clip(lf.name, 80), wr.name, lim, clip(now, 300), clip(was, 300))
				}
				c.Step(1)
			}
		}
		c.Eval(len(limits) * 2)
		c.Outcome(was)
	})}
	mvals := []interface{}{nil, "", "live", 1.5, true, amf.Object{"Provider": "x"}, amf.Array{"Service"}, rep(300)}
	keys := []string{"Provider", "Service", "title"}
	ss = append(ss, &Scenario{Name: "metadata maps", Note: fmt.Sprintf("every map of %d keys, each absent or one of %d values, saved twice in an FLV and a TS mixer which then write their headers", len(keys), len(mvals)), Run: func(c *Ctx) {
		md := amf.Object{}
		for _, k := range keys {
			if n := c.Choose(len(mvals) + 1); n > 0 {
				md[k] = mvals[n-1]
			}
		}
		was := show(md)
		u := newMediaUser()
		feedHeaders(c, u.ts)
		for n := 0; n < 2; n++ {
			_ = u.flv.SaveMetadata(md)
			c.Check(show(md) == was, "FLV SaveMetadata changed the map to %s, was %s", clip(show(md), 300), clip(was, 300))
			_ = u.ts.SaveMetadata(md)
			c.Check(show(md) == was, "TS SaveMetadata changed the map to %s, was %s", clip(show(md), 300), clip(was, 300))
			_ = u.flv.SetFlvHeader()
			_ = u.ts.SetTsHeader()
			c.Check(show(md) == was, "writing the headers changed the metadata to %s, was %s", clip(show(md), 300), clip(was, 300))
			c.Step(4)
		}
		c.Eval(6)
		c.Outcome(was)
		c.State(was)
	}})
	argSets := []sips.Args{{}, {"tag": "a1"}, {"lr": ""}, {"b": "2", "a": "1", "c": ""}}
	bodies := []string{"", "v=0\r\n", "x"}
	ss = append(ss, &Scenario{Name: "SIP values", Note: "every combination of address parts and parameters, header set and body through the serialisers, conversions and message builders; only Src and Content-Length may change", Run: func(c *Ctx) {
		opt := func(s string) string {
			if c.Bool() {
				return s
			}
			return ""
		}
		us := &sips.SIPUser{URIType: []string{"sip", "sips", "tel"}[c.Choose(3)], Name: []string{"", "Bob", "Anonymous", "B \"o\" b"}[c.Choose(4)], User: opt("bob"), Host: opt("h.example"), Port: opt("5060"), Args: copyArgs(argSets[c.Choose(len(argSets))])}
		hs := c.Choose(4)
		g, body := guard([]byte(bodies[c.Choose(len(bodies))]))
		rq := &sips.SIPRequest{URIType: us.URIType, User: us.User, Host: us.Host, Port: us.Port, Args: copyArgs(us.Args)}
		vi := &sips.SIPVia{Host: us.Host, Port: us.Port, Args: copyArgs(us.Args)}
		cs := &sips.SIPCseq{ID: us.Port, Method: "INVITE"}
		header := func() sips.SIPHeader {
			h := sips.NewSIPHeader()
			if hs > 0 {
				h["call-id"] = []string{"1@h"}
			}
			if hs > 1 {
				h["via"] = []string{"SIP/2.0/UDP a;branch=1", "SIP/2.0/UDP b"}
				h["x-odd"] = []string{"", " v "}
			}
			if hs > 2 {
				h["from"] = []string{"<sip:a@b>;tag=1"}
				h["to"] = []string{"<sip:a@b>"}
				h["subject"] = []string{"s"}
			}
			return h
		}
		look := func() string {
			a, b, d, e := *us, *rq, *vi, *cs
			a.Src, b.Src, d.Src, e.Src = "", "", "", ""
			return show(a) + show(b) + show(d) + show(e)
		}
		hlook := func(h sips.SIPHeader) string {
			m := map[string][]string{}
			for k, v := range h {
				if k != "content-length" {
					m[k] = v
				}
			}
			return show(m)
		}
		was := look()
		chk := func(what string) {
			if now := look(); now != was {
				c.Fail("%s changed the values to %s, were %s", what, now, was)
			}
			g.check(c, what)
			c.Step(1)
		}
		_ = us.String()
		_ = rq.String()
		_ = vi.String()
		_ = cs.String()
		chk("serialising")
		_ = us.ToRequest()
		_ = rq.ToUser()
		_ = us.ToRequest().String() + rq.ToUser().String()
		chk("converting")
		h := header()
		hw := hlook(h)
		h2 := sips.NewSIPHeader()
		h2.CopyFrom(h, "via", "From", "call-id", "subject", "none")
		_ = h.String()
		_ = h.Bytes()
		_ = []interface{}{h.GetHeader("via"), h.GetSIPFrom(), h.GetSIPTo(), h.GetSIPContact(), h.GetSIPVia(), h.GetSIPCseq(), h.GetAuthorization(), h.GetCallID(), h.GetExpires()}
		c.Check(hlook(h) == hw, "copying, reading and printing changed the header to %s, was %s", hlook(h), hw)
		h2.SetSIPFrom(us)
		h2.SetSIPTo(us)
		h2.SetSIPContact(us)
		h2.SetSIPVia(vi)
		h2.SetSIPCseq(cs)
		chk("setting headers")
		for _, m := range []*sips.SIP{sips.MakeRequest(sips.SIPMethodInvite, rq, h, body), sips.MakeResponse(200, h, body)} {
			for n := 0; n < 2; n++ {
				_ = m.Bytes()
				_ = m.String()
				chk("serialising a message")
				c.Check(hlook(h) == hw, "serialising a message changed the header to %s, was %s", hlook(h), hw)
			}
		}
		c.Eval(8)
		c.Outcome(was, hs)
	}})
	return ss
}
