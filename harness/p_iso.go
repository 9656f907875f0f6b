package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"github.com/moggle-mog/goav/amf"
	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/container/ts"
	"github.com/moggle-mog/goav/container/ts/table"
	"github.com/moggle-mog/goav/gop"
	"github.com/moggle-mog/goav/packet"
	"github.com/moggle-mog/goav/parser"
	"github.com/moggle-mog/goav/parser/aac"
	"github.com/moggle-mog/goav/parser/h264"
	"github.com/moggle-mog/goav/parser/mp3"
	"github.com/moggle-mog/goav/sips"
)

// thr is one logical thread: a script of operations on objects it creates
// itself. pause is called at every point where another thread may run: between
// operations and inside every reader, writer and handler callback.
type thr struct {
	v     int // variant of the script's data
	pause func()
	out   strings.Builder // what the script observed
	end   interface{}     // a panic, if any
}

func (t *thr) op(name string, f func() interface{}) {
	t.pause()
	fmt.Fprintf(&t.out, "%s: %v\n", name, f())
}

func (t *thr) err(name string, f func() error) {
	t.op(name, func() interface{} { return f() != nil })
}

// pauseWriter hands the bytes over only after other threads had a chance to
// run, as any writer that blocks does.
type pauseWriter struct {
	t   *thr
	buf bytes.Buffer
}

func (w *pauseWriter) Write(p []byte) (int, error) {
	w.t.pause()
	return w.buf.Write(p)
}

type pauseReader struct {
	t *thr
	r io.Reader
	n int
}

func (r *pauseReader) Read(p []byte) (int, error) {
	if len(p) > r.n {
		p = p[:r.n]
	}
	r.t.pause()
	n, err := r.r.Read(p)
	if n > 0 {
		r.t.pause()
	}
	return n, err
}

type pauseSink struct {
	t *thr
	b strings.Builder
}

func (s *pauseSink) Write(p *packet.Packet) error {
	s.t.pause()
	fmt.Fprintf(&s.b, "%d %x;", p.Type, p.Data)
	return nil
}

type isoScript struct {
	name string
	run  func(t *thr)
}

func isoDemux(pt int, data []byte) *packet.Packet {
	p := pkt(pt, data)
	_ = flv.NewDemuxer().Demux(p)
	return p
}

func isoScripts() []isoScript {
	str := func(t *thr, s string) string { return s + string(rune('A'+t.v)) }
	values := func(t *thr) []interface{} {
		return []interface{}{1.5 + float64(t.v), str(t, "name"), amf.Object{str(t, "k"): str(t, "v")}, amf.Array{t.v, nil, true}, amf.TypedObject{Type: "T", Object: amf.Object{str(t, "p"): t.v}}, amf.Object{"same": t.v}, []interface{}{"same", t.v}, utc(int64(1000 + t.v)), 300 + t.v}
	}
	var l []isoScript
	add := func(name string, f func(t *thr)) { l = append(l, isoScript{name, f}) }
	add("amf0-encode", func(t *thr) {
		e := amf.NewEnDecAMF0()
		w := &pauseWriter{t: t}
		for i, v := range values(t) {
			t.err(fmt.Sprintf("encode %d", i), func() error { _, err := e.Encode(w, v); return err })
		}
		t.err("ecma array", func() error { _, err := e.EncodeEcmaArray(w, amf.Object{"e": t.v}); return err })
		t.err("with amf3", func() error { _, err := e.EncodeWithAMF3(w, str(t, "x")); return err })
		t.op("bytes", func() interface{} { return hx(w.buf.Bytes()) })
	})
	add("amf0-decode", func(t *thr) {
		d := amf.NewEnDecAMF0()
		msg := cat(b0str(str(t, "s")), b0num(float64(t.v)), []byte{3}, b0utf(str(t, "k")), b0str(str(t, "v")), []byte{0, 0, 9}, []byte{7, 0, 0}, []byte{17}, b3str(str(t, "three")), []byte{10}, be32(1), []byte{5})
		r := &pauseReader{t, bytes.NewReader(msg), 5}
		for i := 0; i < 7; i++ {
			t.op("decode", func() interface{} { v, err := d.Decode(r); return fmt.Sprint(canon(v, true), err != nil) })
		}
		t.op("AddMetaHeader", func() interface{} {
			b, err := amf.AddMetaHeader(b0str(str(t, "onMetaData")), amf.NewEnDecAMF0())
			return fmt.Sprintf("%x %v", b, err)
		})
		t.op("DelMetaHeader", func() interface{} {
			b, err := amf.DelMetaHeader(cat(b0str("@setDataFrame"), b0str(str(t, "y"))), amf.NewEnDecAMF0())
			return fmt.Sprintf("%x %v", b, err)
		})
	})
	add("amf3-encode", func(t *thr) {
		e := amf.NewEnDecAMF3()
		w := &pauseWriter{t: t}
		for i, v := range append(values(t), []byte{1, byte(t.v)}, -5-t.v, str(t, "name")) {
			t.err(fmt.Sprintf("encode %d", i), func() error { _, err := e.Encode(w, v); return err })
		}
		t.op("bytes", func() interface{} { return hx(w.buf.Bytes()) })
	})
	add("amf3-decode", func(t *thr) {
		d := amf.NewEnDecAMF3()
		d.RegisterExternalHandler("Ext", func(d *amf.EnDecAMF3, r io.Reader) (interface{}, error) {
			t.pause()
			v, err := d.Decode(r)
			return str(t, "ext ") + canon(v, true), err
		})
		msg := cat(b3str(str(t, "s")), b3int(-7-t.v), b3dbl(float64(t.v)), []byte{6, 0}, []byte{10, 0x13}, b3utf("C"), b3utf(str(t, "p")), b3int(t.v), []byte{10, 1}, b3int(t.v), []byte{10, 0x0b}, b3utf("D"), b3utf(str(t, "k")), b3str(str(t, "w")), []byte{1}, []byte{10, 2}, []byte{9, 3, 1, 3}, []byte{10, 0x07}, b3utf("Ext"), b3int(9), []byte{12, 5, byte(t.v), 2})
		r := &pauseReader{t, bytes.NewReader(msg), 4}
		for i := 0; i < 11; i++ {
			t.op("decode", func() interface{} { v, err := d.Decode(r); return fmt.Sprint(canon(v, true), err != nil) })
		}
	})
	add("flv-mixer", func(t *thr) {
		w := &pauseWriter{t: t}
		m := flv.NewMixer(w)
		v := byte(t.v)
		t.err("metadata", func() error { return m.SaveMetadata(amf.Object{str(t, "m"): t.v}) })
		t.err("avc", func() error {
			return m.SaveAVCHeader(pkt(packet.PktVideo, vidData(true, true, 0, []byte{v, 1})))
		})
		if t.v != 1 {
			t.err("aac", func() error {
				return m.SaveAACHeader(pkt(packet.PktAudio, []byte{0xaf, 0, v, 2}))
			})
		}
		t.err("header", m.SetFlvHeader)
		t.err("video", func() error {
			return m.Mux(pkt(packet.PktVideo, vidData(true, false, 0, repBytes(20+t.v, t.v))), uint32(100+t.v))
		})
		t.err("audio", func() error {
			return m.Mux(pkt(packet.PktAudio, []byte{0xaf, 1, v}), uint32(1<<25+t.v))
		})
		t.err("script", func() error {
			return m.Mux(pkt(packet.PktMetadata, cat(b0str("@setDataFrame"), b0str(str(t, "q")))), 7)
		})
		t.op("bytes", func() interface{} { return fmt.Sprintf("%x", w.buf.Bytes()) })
	})
	add("flv-demux", func(t *thr) {
		for _, d := range [][]byte{vidData(true, true, t.v, []byte{1}), vidData(false, false, 100+t.v, []byte{2}), {0x27 - byte(t.v), 1, 0xff, 0xff, 0xf0 - byte(t.v), 9}} {
			t.op("video", func() interface{} {
				p := isoDemux(packet.PktVideo, d)
				return fmt.Sprintf("%s %x", tagFields(p.Header.(*flv.Tag), packet.PktVideo), p.Media)
			})
		}
		for _, d := range [][]byte{{0xaf, 0, 1}, {0xaf - byte(t.v), 1, 2}, {0x2f, byte(t.v)}} {
			t.op("audio", func() interface{} {
				p := isoDemux(packet.PktAudio, d)
				return fmt.Sprintf("%s %x", tagFields(p.Header.(*flv.Tag), packet.PktAudio), p.Media)
			})
		}
	})
	add("ts-mixer", func(t *thr) {
		w := &pauseWriter{t: t}
		m := ts.NewMixer(w)
		v := byte(t.v)
		t.err("metadata", func() error { return m.SaveMetadata(amf.Object{"Provider": str(t, "p"), "Service": str(t, "s")}) })
		t.err("avc", func() error {
			return m.SaveAVCHeader(isoDemux(packet.PktVideo, vidData(true, true, 0, avcc([]byte{0x67, v, 1}, []byte{0x68, v}))))
		})
		if t.v != 1 {
			t.err("aac", func() error { return m.SaveAACHeader(isoDemux(packet.PktAudio, aacHeaderBytes(3+t.v))) })
		}
		t.err("tables", m.SetTsHeader)
		for i, n := range []int{60, 250} {
			p := isoDemux(packet.PktVideo, vidData(i == 0, false, 40, nal(append([]byte{[]byte{0x65, 0x41}[i]}, repBytes(n+t.v, t.v)...)...)))
			t.err("update", func() error { return m.Update(p, uint32(1000*t.v+40*i), 40) })
			t.err("mux", func() error { return m.Mux(p) })
		}
		p := isoDemux(packet.PktAudio, cat([]byte{0xaf, 1}, repBytes(200+t.v, t.v+5)))
		t.err("update", func() error { return m.Update(p, uint32(1000*t.v+23), 0) })
		t.err("mux", func() error { return m.Mux(p) })
		t.err("tables", m.SetTsHeader)
		t.op("bytes", func() interface{} { return fmt.Sprintf("%x", w.buf.Bytes()) })
	})
	add("ts-muxer", func(t *thr) {
		w := &pauseWriter{t: t}
		m := ts.NewMuxer()
		for i, k := range []tsKind{tsKinds[1], tsKinds[2], tsKinds[4]} {
			t.err("mux", func() error {
				pt, d := packet.PktVideo, vidData(k.key, false, 0, []byte{0, 0, 0, 1})
				if !k.video {
					pt, d = packet.PktAudio, []byte{0xaf, 1, 0}
				}
				p := isoDemux(pt, d)
				p.Media = repBytes(150+30*i+t.v, t.v)
				return m.Mux(p, int64(9000*t.v+i), int64(9000*t.v+i)+k.ct, w)
			})
		}
		// tables are rendered once control returns to the caller
		t.op("pat", func() interface{} { return fmt.Sprintf("%x", m.PAT()) })
		kinds := [][]int{{packet.PktVideo}, {packet.PktAudio}, {packet.PktVideo, packet.PktAudio}}[t.v%3]
		t.op("pmt", func() interface{} { b := m.PMT(kinds...); t.pause(); return fmt.Sprintf("%x", b) })
		t.op("sdt", func() interface{} {
			d := table.NewDescriptor()
			_ = d.Service(1, str(t, "p"), str(t, "s"))
			b := m.SDT(d.GetBuffer())
			t.pause()
			return fmt.Sprintf("%x", b)
		})
		t.op("pmt", func() interface{} { return fmt.Sprintf("%x", m.PMT(kinds...)) })
		t.op("crc", func() interface{} { return ts.GenerateCrc32(repBytes(50, t.v)) })
		t.op("bytes", func() interface{} { return fmt.Sprintf("%x", w.buf.Bytes()) })
	})
	add("ts-tables", func(t *thr) {
		d := table.NewDescriptor()
		t.err("service", func() error { return d.Service(byte(t.v+1), str(t, "provider"), str(t, "service")) })
		t.err("network", func() error { return d.NetworkName(str(t, "net")) })
		t.op("bytes", func() interface{} { return fmt.Sprintf("%x", d.GetBuffer().Bytes()) })
		pes := table.NewPes()
		var n int
		t.op("pes", func() interface{} {
			n = pes.GeneratePesHeader([]int{packet.PktVideo, packet.PktAudio}[t.v&1], 100+t.v, int64(90000+t.v), int64(9000*t.v))
			return n
		})
		t.op("pes bytes", func() interface{} { return fmt.Sprintf("%x", pes.PesHeader[:n]) })
		for _, f := range []func() interface{}{
			func() interface{} { x := table.NewPat(); x.TsHeader[3] |= byte(t.v); t.pause(); return *x },
			func() interface{} { x := table.NewPmt(); x.PmtHeader[2] = byte(t.v); t.pause(); return *x },
			func() interface{} { x := table.NewSdt(); x.SdtHeader[2] = byte(t.v); t.pause(); return *x },
			func() interface{} { x := table.NewProgram(); x.Avc[0] = byte(t.v); t.pause(); return *x },
		} {
			t.op("table", func() interface{} { return fmt.Sprintf("%x", f()) })
		}
	})
	add("codec-parser", func(t *thr) {
		w := &pauseWriter{t: t}
		cp := parser.NewCodecParser()
		v := byte(t.v)
		for _, d := range []struct {
			pt   int
			data []byte
		}{
			{packet.PktVideo, vidData(true, true, 0, avcc([]byte{0x67, v, 1}, []byte{0x68, v}))},
			{packet.PktAudio, aacHeaderBytes(2 + t.v)},
			{packet.PktVideo, vidData(true, false, 0, cat(nal(0x06, v), nal(0x65, v, 2)))},
			{packet.PktVideo, vidData(true, false, 0, cat(nal(0x67, v), nal(0x68, 1+v), nal(0x65, v, 4)))},
			{packet.PktAudio, []byte{0xaf, 1, v, 9}},
			{packet.PktVideo, vidData(false, false, 0, nal(0x41, v))},
		} {
			p := isoDemux(d.pt, d.data)
			t.err("parse", func() error { return cp.Parse(p, w) })
		}
		t.op("rate", func() interface{} { r, err := cp.SampleRate(); return fmt.Sprint(r, err != nil) })
		t.op("bytes", func() interface{} { return fmt.Sprintf("%x", w.buf.Bytes()) })
	})
	add("single-parsers", func(t *thr) {
		w := &pauseWriter{t: t}
		v := byte(t.v)
		h, a, m := h264.NewParser(), aac.NewParser(), mp3.NewParser()
		t.err("avc header", func() error { return h.Parse(avcc([]byte{0x67, v, 7, 7}, []byte{0x68, v}), true, w) })
		t.err("aac header", func() error {
			return a.Parse([]byte{byte(2<<3 | (3+t.v)>>1), byte((3+t.v)&1<<7 | 2<<3)}, flv.AacSeqHdr, w)
		})
		t.err("mp3", func() error { return m.Parse([]byte{0xff, 0xfb, []byte{0x90, 0x92, 0x94}[t.v%3], 0}) })
		t.err("aac frame", func() error { return a.Parse([]byte{v, 2, 3}, flv.AacRaw, w) })
		t.err("avc frame", func() error { return h.Parse(nal(0x65, v, 5), false, w) })
		t.op("rates", func() interface{} { return fmt.Sprint(a.SampleRate(), m.SampleRate()) })
		t.op("bytes", func() interface{} { return fmt.Sprintf("%x", w.buf.Bytes()) })
	})
	add("gop-cache", func(t *thr) {
		g := gop.NewCache(1 + t.v)
		v := byte(t.v)
		for i, d := range [][]byte{vidData(true, true, 0, []byte{v, 9}), vidData(true, false, 0, nal(0x65, v)), vidData(false, false, 0, nal(0x41, v)), vidData(true, false, 0, nal(0x65, v, 2))} {
			p := isoDemux(packet.PktVideo, d)
			p.TimeStamp = uint32(i)
			t.err("write", func() error { return g.Write(p) })
		}
		t.err("audio", func() error { return g.Write(isoDemux(packet.PktAudio, []byte{0xaf, 0, v, 3})) })
		t.err("metadata", func() error {
			return g.Write(pkt(packet.PktMetadata, []byte{2, 0, 1, v}))
		})
		s := &pauseSink{t: t}
		t.err("replay", func() error { return g.SendTo(s) })
		t.err("replay", func() error { return g.SendTo(s) })
		t.op("packets", func() interface{} { return s.b.String() })
	})
	add("sip-build", func(t *thr) {
		var h sips.SIPHeader
		t.op("header", func() interface{} { h = sips.NewSIPHeader(); return "" })
		t.op("set", func() interface{} { h.SetFirstHeader("Subject", str(t, "s")); return "" })
		u := sips.NewSIPUser(fmt.Sprintf("\"N%d\" <sip:u%d@host%d:506%d>;tag=%d", t.v, t.v, t.v, t.v, t.v))
		t.op("from", func() interface{} { h.SetSIPFrom(u); return u.String() })
		t.op("via", func() interface{} {
			v := sips.NewSIPVia(fmt.Sprintf("SIP/2.0/UDP h%d:1;branch=z%d", t.v, t.v))
			h.SetSIPVia(v)
			return v.String()
		})
		t.op("cseq", func() interface{} {
			q := sips.NewSIPCseq(fmt.Sprintf("%d INVITE", 5+t.v))
			h.SetSIPCseq(q)
			return q.String()
		})
		var s *sips.SIP
		t.op("make", func() interface{} {
			s = sips.MakeRequest(sipMethods[t.v].m, sips.NewSIPRequest(fmt.Sprintf("sip:r%d@d%d", t.v, t.v)), h, []byte(str(t, "body")))
			return ""
		})
		t.op("bytes", func() interface{} {
			b := s.Bytes()
			t.pause()
			p, err := parseSip(b)
			if err != nil {
				return err
			}
			return sipShow(p)
		})
		t.op("texts", func() interface{} {
			return fmt.Sprint(sips.SIPStatus(404+t.v).Text(), sipMethods[3+t.v].m, sips.SIPVersion2)
		})
		t.op("undefined", func() interface{} {
			_, e1 := sips.GetSIPMethod(str(t, "NONE"))
			_, e2 := sips.GetSIPVersion(str(t, "SIP/9."))
			return fmt.Sprintf("%q %q %v %v %v %q %q", sips.SIPStatus(700+t.v).Text(), sips.SIPStatus(707).Text(), sips.SIPStatus(900+t.v), e1 != nil, e2 != nil, h.GetFirstHeader(str(t, "x-none")), h.GetHeader("x-none-at-all"))
		})
		t.op("undefined response", func() interface{} {
			p, err := parseSip(sips.MakeResponse(sips.SIPStatus(799), nil, nil).Bytes())
			if err != nil {
				return err
			}
			return sipShow(p)
		})
		t.op("response", func() interface{} {
			p, err := parseSip(sips.MakeResponse(sips.SIPStatus(403+t.v), nil, []byte(str(t, "r"))).Bytes())
			if err != nil {
				return err
			}
			return sipShow(p)
		})
	})
	add("sip-parse", func(t *thr) {
		var stream bytes.Buffer
		for i := 0; i < 3; i++ {
			stream.Write(sipText([]string{"INVITE sip:" + str(t, "u") + "@h SIP/2.0", "SIP/2.0 486 Busy Here", "REGISTER sip:r SIP/2.0"}[(i+t.v)%3],
				[][2]string{{"Subject", str(t, "s")}, {"f", fmt.Sprintf("<sip:a%d@b>;tag=%d", t.v, i)}, {"X-Multi", str(t, "one")}, {"X-Multi", str(t, "two")}}, []byte(str(t, "body"))))
		}
		r := bufio.NewReaderSize(&pauseReader{t, &stream, 30}, 4096)
		for i := 0; i < 3; i++ {
			t.op("parse", func() interface{} {
				s := sips.NewSIP()
				err := s.Parse(r)
				t.pause()
				return fmt.Sprint(sipShow(s), err != nil, s.Headers.GetSIPFrom())
			})
		}
		t.op("args", func() interface{} { return argsText(sips.ParseArgs(fmt.Sprintf("a=%d;b;c=%d", t.v, t.v+1))) })
		t.op("auth", func() interface{} {
			return argsText(sips.NewSIPAuth(fmt.Sprintf("Digest realm=\"r%d\", nonce=\"n%d\"", t.v, t.v)).Args)
		})
	})
	// the same input everywhere, and whatever came back is altered by its owner
	add("alter-amf", func(t *thr) {
		for i := 0; i < 2; i++ {
			d0, d3 := amf.NewEnDecAMF0(), amf.NewEnDecAMF3()
			var vs []interface{}
			t.op("amf0", func() interface{} {
				l, err := d0.DecodeBatch(bytes.NewReader(cat([]byte{3}, b0utf("k"), []byte{10, 0, 0, 0, 2, 5, 1, 1, 0, 0, 9}, []byte{16}, b0utf("T"), b0utf("k"), []byte{8, 0, 0, 0, 0, 0, 0, 9, 0, 0, 9}, []byte{10, 0, 0, 0, 0}, []byte{3, 0, 0, 9}, []byte{17, 12, 5, 1, 2})))
				vs = append(vs, l...)
				return fmt.Sprint(canon(amf.Array(l), true), err != nil)
			})
			t.op("amf3", func() interface{} {
				l, err := d3.DecodeBatch(bytes.NewReader(cat([]byte{9, 5, 1, 1, 3}, []byte{10, 0x13, 3, 'C', 3, 'k', 9, 1, 1}, []byte{12, 5, 1, 2}, []byte{9, 1, 1}, []byte{10, 11, 1, 1}, []byte{12, 1}, []byte{9, 1, 3, 'a', 2, 1})))
				vs = append(vs, l...)
				return fmt.Sprint(canon(amf.Array(l), true), err != nil)
			})
			for _, v := range vs {
				alter(v, t.v)
			}
			var b []byte
			t.op("add", func() interface{} {
				var err error
				b, err = amf.AddMetaHeader(b0str("onMetaData"), amf.NewEnDecAMF0())
				return fmt.Sprintf("%x %v", b, err)
			})
			for k := range b {
				b[k] = byte(t.v)
			}
			w := &pauseWriter{t: t}
			t.op("encoded", func() interface{} {
				_ = d0.EncodeBatch(w, "same", amf.Object{"same": 1}, amf.Array{true})
				_ = d3.EncodeBatch(w, "same", amf.Object{"same": 1}, amf.Array{true}, []byte{1}, 5)
				return hx(w.buf.Bytes())
			})
			for k, b := 0, w.buf.Bytes(); k < len(b); k++ {
				b[k] = byte(t.v)
			}
		}
	})
	add("alter-sip", func(t *thr) {
		mark := func(a sips.Args) {
			for k := range a {
				a[k] = str(t, "x")
			}
			if a != nil {
				a.Set(str(t, "new"), "1")
			}
		}
		for i := 0; i < 2; i++ {
			var u *sips.SIPUser
			t.op("user", func() interface{} { u = sips.NewSIPUser(`"N" <sip:u@h:1>;tag=1;lr`); return userParts(u) })
			mark(u.Args)
			u.User = str(t, "u")
			t.op("user", func() interface{} { u = sips.NewSIPUser("<sip:u@h>"); return userParts(u) })
			mark(u.Args)
			t.op("empty user", func() interface{} { u = sips.NewSIPUser(""); return userParts(u) })
			mark(u.Args)
			u.Host = str(t, "h")
			var q *sips.SIPRequest
			t.op("uri", func() interface{} { q = sips.NewSIPRequest("sip:u@h:1;transport=udp"); return reqParts(q) })
			mark(q.Args)
			t.op("to user", func() interface{} {
				u = sips.NewSIPRequest("sip:u@h").ToUser()
				return userParts(u)
			})
			mark(u.Args)
			var v *sips.SIPVia
			t.op("via", func() interface{} {
				v = sips.NewSIPVia("SIP/2.0/UDP h:1;branch=z")
				return fmt.Sprint(v.Trans, v.Host, v.Port, argsText(v.Args))
			})
			mark(v.Args)
			t.op("empty via", func() interface{} {
				v = sips.NewSIPVia("")
				return fmt.Sprint(v.Trans, v.Host, v.Port, argsText(v.Args))
			})
			mark(v.Args)
			var a sips.Args
			for _, x := range []string{"", "a=1;b", "a"} {
				t.op("args", func() interface{} { a = sips.ParseArgs(x); return argsText(a) })
				mark(a)
			}
			for _, x := range []string{"", `Digest realm="r", nonce="n"`, "Basic x"} {
				t.op("auth", func() interface{} {
					p := sips.NewSIPAuth(x)
					a = p.Args
					return argsText(a)
				})
				mark(a)
			}
			var s *sips.SIP
			t.op("message", func() interface{} {
				var err error
				s, err = parseSip(sipText("INVITE sip:u@h SIP/2.0", [][2]string{{"Via", "SIP/2.0/UDP h;branch=z"}, {"From", "<sip:a@b>;tag=1"}, {"To", "<sip:c@d>"}, {"CSeq", "1 INVITE"}, {"X", "1"}, {"X", "2"}}, []byte("body")))
				return fmt.Sprint(sipShow(s), err, userParts(s.From), userParts(s.To), s.Cseq, s.Via)
			})
			mark(s.From.Args)
			mark(s.To.Args)
			mark(s.Via.Args)
			s.Cseq.ID = str(t, "9")
			for k, l := range s.Headers.GetAllHeaders() {
				for i := range l {
					l[i] = str(t, "h")
				}
				s.Headers[k] = append(l, str(t, "i"))
			}
			for k := range s.Payload() {
				s.Payload()[k] = byte('A' + t.v)
			}
			for k := range s.Contents {
				s.Contents[k] = byte('A' + t.v)
			}
			var r *sips.SIP
			for k := 0; k < 3; k++ {
				t.op("made", func() interface{} {
					switch k {
					case 0:
						r = sips.MakeRequest(sips.SIPMethodBye, sips.NewSIPRequest("sip:u@h"), nil, nil)
					case 1:
						r = sips.MakeResponse(sips.SIPStatus(200), nil, nil)
					case 2:
						r = sips.NewSIP()
						return fmt.Sprint(len(r.Headers), r.Method, r.IsResponse)
					}
					p, err := parseSip(cat(r.Bytes(), []byte("\r\n")))
					return fmt.Sprint(sipShow(p), err)
				})
				if r.Headers != nil {
					r.Headers.SetFirstHeader(str(t, "X"), "1")
				}
			}
			h := sips.NewSIPHeader()
			t.op("headers", func() interface{} { return len(h) })
			h.SetFirstHeader(str(t, "X"), "1")
			absent := h.GetHeader("none")
			_ = append(absent, str(t, "x"))
			h.SetFirstHeader("Subject", str(t, "x"))
			h.GetHeader("Subject")[0] = str(t, "y")
		}
	})
	add("alter-media", func(t *thr) {
		for i := 0; i < 2; i++ {
			d := table.NewDescriptor()
			t.op("descriptor", func() interface{} {
				_ = d.Service(1, "same", "same")
				return fmt.Sprintf("%x", d.GetBuffer().Bytes())
			})
			b := d.GetBuffer().Bytes()
			for k := range b {
				b[k] = byte(t.v)
			}
			m := ts.NewMuxer()
			for k, f := range []func() []byte{m.PAT, func() []byte { return m.PMT(packet.PktVideo, packet.PktAudio) }, func() []byte { return m.SDT(bytes.NewBuffer([]byte{0x48, 3, 1, 0, 0})) }} {
				var b []byte
				t.op(fmt.Sprint("table ", k), func() interface{} { b = f(); return fmt.Sprintf("%x", b) })
				for k := range b {
					b[k] = byte(t.v)
				}
			}
			tag := &flv.Tag{}
			p := isoDemux(packet.PktVideo, []byte{0x27, 1, 0, 0, 40, byte(i), 2, 3})
			t.op("demuxed", func() interface{} {
				return fmt.Sprintf("%s %x", tagFields(p.Header.(*flv.Tag), packet.PktVideo), p.Media)
			})
			*(p.Header.(*flv.Tag)) = *tag
			for k := range p.Media {
				p.Media[k] = byte(t.v)
			}
			w := &pauseWriter{t: t}
			h, a := h264.NewParser(), aac.NewParser()
			t.op("without headers", func() interface{} {
				e1 := h.Parse(nal(0x65, 1), false, w)
				e2 := a.Parse([]byte{1, 2}, flv.AacRaw, w)
				_, e3 := parser.NewCodecParser().SampleRate()
				return fmt.Sprintf("%v %v %v %x", e1 != nil, e2 != nil, e3 != nil, w.buf.Bytes())
			})
			_ = h.Parse(avcc([]byte{0x67, byte(t.v), 7}, []byte{0x68, byte(t.v)}), true, w)
			_ = a.Parse([]byte{byte(2<<3 | (3+t.v)>>1), byte((3+t.v)&1<<7 | 2<<3)}, flv.AacSeqHdr, w)
			t.op("with headers", func() interface{} {
				w.buf.Reset()
				e1 := h.Parse(nal(0x65, 1), false, w)
				e2 := a.Parse([]byte{1, 2}, flv.AacRaw, w)
				return fmt.Sprintf("%v %v %x", e1 != nil, e2 != nil, w.buf.Bytes())
			})
			o := w.buf.Bytes()
			for k := range o {
				o[k] = byte(t.v)
			}
		}
	})
	return l
}

// alter overwrites everything inside a decoded value.
func alter(v interface{}, with int) {
	switch x := v.(type) {
	case amf.Object:
		for _, e := range x {
			alter(e, with)
		}
		x[fmt.Sprint("n", with)] = with
	case amf.TypedObject:
		alter(x.Object, with)
	case amf.Array:
		for i := range x {
			alter(x[i], with)
			x[i] = with
		}
		_ = append(x, with)
	case []byte:
		for i := range x {
			x[i] = byte(with)
		}
		_ = append(x, byte(with))
	case amf.EcmaArrayAMF3:
		dense, assoc := ecmaParts(x)
		for i := range dense {
			alter(dense[i], with)
		}
		for _, e := range assoc {
			alter(e, with)
		}
	}
}

// solo runs a script alone.
func soloRun(s isoScript, v int, pause func()) (out string, stops int) {
	t := &thr{v: v}
	t.pause = func() {
		stops++
		if pause != nil {
			pause()
		}
	}
	s.run(t)
	return t.out.String(), stops
}

// together runs the scripts as goroutines of which exactly one is running at
// any time; next(cur, alive) names the thread to run at each stopping point.
func together(ss []isoScript, next func(cur int, alive []bool) int) []*thr {
	n := len(ss)
	ts := make([]*thr, n)
	wake := make([]chan struct{}, n)
	back := make(chan int)
	alive := make([]bool, n)
	for i := range ss {
		i := i
		wake[i] = make(chan struct{})
		alive[i] = true
		t := &thr{v: i}
		t.pause = func() {
			back <- i
			<-wake[i]
		}
		ts[i] = t
		go func() {
			defer func() {
				if r := recover(); r != nil {
					t.end = fmt.Sprintf("%v\n%s", r, debug.Stack())
				}
				alive[i] = false
				back <- i
			}()
			<-wake[i]
			ss[i].run(t)
		}()
	}
	cur := -1
	for left := n; left > 0; {
		cur = next(cur, alive)
		wake[cur] <- struct{}{}
		<-back
		if !alive[cur] {
			left--
		}
	}
	return ts
}

func init() {
	register(&Prop{
		ID: "I01", Level: "model_checking",
		Rule:        "Two (or three) scripts run as goroutines under a cooperative scheduler that stops them between operations and inside every reader, writer, packet sink and handler callback; every interleaving with at most the stated number of preemptions is executed, and what each script observes is compared with what it observes alone in a process of its own. A state is the pair of script and position at a switch. A second pass runs every pair and all scripts together freely under the Go race detector.",
		Assumptions: []string{"Switches inside straight-line code of the library are covered by the race-detector pass (unsynchronised sharing), not by the enumeration"},
		Build: func(th bool) []*Scenario {
			scripts := isoScripts()
			type key struct{ s, v int }
			want := map[key]string{}
			var mu sync.Mutex
			alone := func(c *Ctx, s, v int) string {
				mu.Lock()
				defer mu.Unlock()
				if w, ok := want[key{s, v}]; ok {
					return w
				}
				// a process of its own: nothing any other script left behind can show
				cmd := exec.Command(selfPath(), "solo", fmt.Sprint(s), fmt.Sprint(v))
				b, err := cmd.Output()
				if err != nil {
					c.Fail("%s alone: %v", scripts[s].name, err)
				}
				want[key{s, v}] = string(b)
				return string(b)
			}
			run := func(c *Ctx, ids []int, bound int) {
				var ss []isoScript
				var names []string
				var ws []string
				for v, i := range ids {
					ss = append(ss, scripts[i])
					names = append(names, scripts[i].name)
					ws = append(ws, alone(c, i, v))
				}
				left := bound
				step, switches := 0, ""
				sched := together(ss, func(cur int, alive []bool) int {
					step++
					var others []int
					for i, a := range alive {
						if a && i != cur {
							others = append(others, i)
						}
					}
					if cur >= 0 && alive[cur] {
						if left == 0 || len(others) == 0 {
							return cur
						}
						k := c.Choose(len(others) + 1)
						if k == 0 {
							return cur
						}
						left--
						switches += fmt.Sprintf(" %d->%s", step, names[others[k-1]])
						c.State(names[cur], names[others[k-1]], step)
						return others[k-1]
					}
					k := c.Choose(len(others))
					switches += fmt.Sprintf(" %d:%s", step, names[others[k]])
					return others[k]
				})
				c.Step(step)
				c.Logf("%v schedule%s", names, switches)
				for i, t := range sched {
					c.Check(t.end == nil, "%s next to %v, schedule%s: panic %v", names[i], names, switches, t.end)
					if got := t.out.String(); got != ws[i] {
						k := firstDiff([]byte(got), []byte(ws[i]))
						from := max(0, k-80)
						c.Fail("%s run next to %v with schedule%s observes ...%s, alone ...%s", names[i], names, switches, clip(got[min(from, len(got)):], 240), clip(ws[i][min(from, len(ws[i])):], 240))
					}
				}
				c.Outcome(names, switches)
				c.Eval(len(ids))
			}
			n := len(scripts)
			ss := []*Scenario{
				{Name: "alone", Note: "every script twice in a row and in 3 variants: the same result as in a process of its own", Run: func(c *Ctx) {
					i, v := c.Choose(n), c.Choose(3)
					a, st := soloRun(scripts[i], v, nil)
					b, _ := soloRun(scripts[i], v, nil)
					c.Check(a == b, "%s observes %s the second time, %s the first", scripts[i].name, clip(b, 600), clip(a, 600))
					w := alone(c, i, v)
					c.Check(a == w, "%s observes %s, in a process of its own %s", scripts[i].name, clip(a, 600), clip(w, 600))
					c.Outcome(a)
					c.State(st)
					c.Logf("%s: %d switch points", scripts[i].name, st)
				}},
				{Name: "pairs", Note: fmt.Sprintf("every pair (also of the same kind) of %d scripts x every interleaving with at most 2 preemptions", n), Run: func(c *Ctx) {
					i := c.Choose(n)
					j := c.Choose(n-i) + i
					run(c, []int{i, j}, 2)
				}},
				{Name: "triples", Note: fmt.Sprintf("every three of %d scripts x every interleaving with at most 1 preemption", n), Run: func(c *Ctx) {
					i := c.Choose(n)
					j := c.Choose(n-i) + i
					k := c.Choose(n-j) + j
					run(c, []int{i, j, k}, 1)
				}},
			}
			if th {
				ss = append(ss, &Scenario{Name: "same-kind-deeper", Note: fmt.Sprintf("two scripts of the same kind x every interleaving with at most 3 preemptions, %d kinds", n), Run: func(c *Ctx) {
					i := c.Choose(n)
					run(c, []int{i, i}, 3)
				}})
			}
			return ss
		},
		Extra: func(th bool) (map[string]interface{}, error) {
			bin := os.Getenv("VERIF_RACE_BIN")
			if bin == "" {
				return map[string]interface{}{"race_pass": "not available"}, nil
			}
			cmd := exec.Command(bin, "race", fmt.Sprint(pick(20, 300)))
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=66 history_size=5")
			out, err := cmd.CombinedOutput()
			s := string(out)
			if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
				if strings.Contains(s, "github.com/moggle-mog/goav/") {
					return nil, fmt.Errorf("data race between separate objects:\n%s", clip(s[i:], 2500))
				}
			}
			if i := strings.Index(s, "DIFFERENT"); i >= 0 {
				return nil, fmt.Errorf("running freely: %s", clip(s[i:], 1500))
			}
			if err != nil && !strings.Contains(s, "race pass done") {
				if strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:") {
					return nil, fmt.Errorf("running freely dies: %s", clip(s, 2500))
				}
				return map[string]interface{}{"race_pass": "could not run: " + clip(s, 300)}, nil
			}
			return map[string]interface{}{"race_pass": strings.TrimSpace(clip(s, 300))}, nil
		},
	})
}

func selfPath() string {
	p, err := os.Executable()
	if err != nil {
		return os.Args[0]
	}
	return p
}

// soloMain prints what one script observes in a process of its own.
func soloMain(script, variant string) {
	var i, v int
	fmt.Sscan(script, &i)
	fmt.Sscan(variant, &v)
	out, _ := soloRun(isoScripts()[i], v, nil)
	fmt.Print(out)
}

// raceMain runs every pair of scripts, and all of them at once, in real
// goroutines and compares with the scripts run alone.
func raceMain() {
	rounds := 20
	if len(os.Args) > 2 {
		fmt.Sscan(os.Args[2], &rounds)
	}
	scripts := isoScripts()
	runs := 0
	// the pairs first, before anything ran alone: lazily initialised shared
	// state would otherwise be initialised already
	type obs struct {
		i, v int
		out  string
	}
	var all []obs
	var mu sync.Mutex
	group := func(ids []int) {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for v, i := range ids {
			v, i := v, i
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				o, _ := soloRun(scripts[i], v, nil)
				mu.Lock()
				all = append(all, obs{i, v, o})
				mu.Unlock()
			}()
		}
		close(start)
		wg.Wait()
		runs++
	}
	for r := 0; r < rounds; r++ {
		for i := range scripts {
			for j := i; j < len(scripts); j++ {
				group([]int{i, j})
			}
		}
		for i := range scripts {
			group([]int{i, i, i})
		}
	}
	bad := 0
	want := map[[2]int]string{}
	sort.Slice(all, func(a, b int) bool { return all[a].i < all[b].i })
	for _, o := range all {
		k := [2]int{o.i, o.v}
		if _, ok := want[k]; !ok {
			want[k], _ = soloRun(scripts[o.i], o.v, nil)
		}
		if o.out != want[k] && bad < 3 {
			bad++
			fmt.Printf("DIFFERENT %s observed %s, alone %s\n", scripts[o.i].name, clip(o.out, 400), clip(want[k], 400))
		}
	}
	fmt.Printf("race pass done: %d free-running groups of 2 or 3 scripts, no race reported\n", runs)
	if bad > 0 {
		os.Exit(1)
	}
}
