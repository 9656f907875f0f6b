package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"io"
	"strconv"
	"strings"

	"github.com/moggle-mog/goav/amf"
	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/container/ts"
	"github.com/moggle-mog/goav/gop"
	"github.com/moggle-mog/goav/packet"
	"github.com/moggle-mog/goav/sips"
)

// ---- A10: errors leave nothing behind ----

// amfFail is one operation that ends in an error.
type amfFail struct {
	name string
	do   func(d interface{}) error
}

func decWith(d interface{}, r io.Reader) (interface{}, error) {
	return d.(amf.Decoder).Decode(r)
}

func deepArrays(amf3 bool, n int) []byte {
	if amf3 {
		return cat(bytes.Repeat([]byte{9, 3, 1}, n), []byte{1})
	}
	return cat(bytes.Repeat([]byte{10, 0, 0, 0, 1}, n), []byte{5})
}

// deepObjects nests plain objects; the innermost value is null.
func deepObjects(amf3 bool, n int) []byte {
	if amf3 {
		// class "" sealed with one property "k"
		return cat(bytes.Repeat([]byte{10, 0x13, 1, 3, 'k'}, n), []byte{1})
	}
	return cat(bytes.Repeat(cat([]byte{3}, b0utf("k")), n), []byte{5}, bytes.Repeat([]byte{0, 0, 9}, n))
}

func amfFails(amf3 bool) []amfFail {
	var l []amfFail
	cut := func(name string, b []byte) {
		l = append(l, amfFail{name, func(d interface{}) error { _, err := decWith(d, bytes.NewReader(b)); return err }})
	}
	if amf3 {
		cut("array cut after its first element", []byte{9, 5, 1, 3})
		cut("object cut in a value", []byte{10, 0x13, 1, 3, 'k', 5, 0, 0})
		cut("object with a missing trait", cat([]byte{10}, u29(400<<2|1)))
		cut("array inside a dynamic object cut", []byte{10, 11, 1, 3, 'z', 9, 3, 1, 9, 3, 1, 13})
		cut("unsupported type in an array", []byte{9, 3, 1, 13})
		cut("external object of a registered class cut", []byte{10, 7, 3, 'X', 9, 3, 1})
		cut("external object of an unknown class", []byte{10, 7, 3, 'Y', 1})
		cut("message object cut", cat([]byte{10, 7}, b3utf("DSA"), []byte{1, 9, 3, 1}))
		cut("collection cut", cat([]byte{10, 7}, b3utf("flex.messaging.io.ArrayCollection"), []byte{9, 3, 1}))
		cut("string cut", []byte{6, 21, 'a', 'b'})
		cut("class T with other members cut", []byte{10, 0x13, 3, 'T', 3, 'c', 9})
		cut("class D with other members cut", []byte{10, 0x23, 3, 'D', 3, 'x', 3, 'y', 1})
		cut("date cut", []byte{8, 1, 0x42, 0})
	} else {
		cut("array cut after its first element", []byte{10, 0, 0, 0, 2, 5})
		cut("object cut in a value", cat([]byte{3}, b0utf("k"), []byte{0, 1, 2}))
		cut("object without its end marker", cat([]byte{3}, b0utf("k"), []byte{5, 0, 0, 8}))
		cut("typed object cut", cat([]byte{16}, b0utf("T"), b0utf("k"), []byte{3}, b0utf("l")))
		cut("associative array cut", cat([]byte{8}, be32(9), b0utf("k"), []byte{10, 0, 0, 0, 1}))
		cut("unsupported type in an object", cat([]byte{3}, b0utf("k"), []byte{14}))
		cut("reference to nothing in an array", []byte{10, 0, 0, 0, 1, 7, 0xff, 0xff})
		cut("embedded AMF3 array cut", []byte{17, 9, 3, 1, 9, 3, 1})
		cut("embedded AMF3 unsupported type in an array", []byte{10, 0, 0, 0, 1, 17, 9, 3, 1, 13})
		cut("long string cut", []byte{12, 0, 1, 0, 0, 'a'})
		cut("embedded class T with other members cut", []byte{17, 10, 0x13, 3, 'T', 3, 'c', 9})
		cut("date cut", []byte{11, 0x42, 0, 0})
	}
	cut("nesting beyond every limit", deepArrays(amf3, 5000))
	cut("object nesting beyond every limit", deepObjects(amf3, 5000))
	cut("700 levels cut short", deepArrays(amf3, 700)[:700*3-1])
	l = append(l, amfFail{"failing reader inside an array", func(d interface{}) error {
		b := deepArrays(amf3, 4)
		_, err := decWith(d, &chunkReader{data: b[:len(b)-1], fail: errInjected})
		return err
	}})
	l = append(l, amfFail{"batch cut in its second value", func(d interface{}) error {
		b := deepArrays(amf3, 3)
		_, err := d.(amf.Decoder).DecodeBatch(bytes.NewReader(cat(b, b[:len(b)-1])))
		return err
	}})
	l = append(l, amfFail{"encoding a function inside an array", func(d interface{}) error {
		_, err := d.(amf.Encoder).Encode(io.Discard, amf.Array{amf.Array{1.0, func() {}}})
		return err
	}})
	l = append(l, amfFail{"encoding an object to a failing output", func(d interface{}) error {
		_, err := d.(amf.Encoder).Encode(&faultWriter{failCall: -1, failByte: 7}, amf.Object{"key": amf.Array{"value"}})
		return err
	}})
	l = append(l, amfFail{"encoding a batch with a channel", func(d interface{}) error {
		return d.(amf.Encoder).EncodeBatch(io.Discard, "a", make(chan int))
	}})
	return l
}

// unwrap renders single-element nests by their depth.
func unwrap(v interface{}) string {
	for n := 0; ; n++ {
		switch x := v.(type) {
		case amf.Array:
			if len(x) == 1 {
				v = x[0]
				continue
			}
		case amf.Object:
			if k, ok := x["k"]; ok && len(x) == 1 {
				v = k
				continue
			}
		case amf.EcmaArrayAMF3:
			if dense, assoc := ecmaParts(x); len(dense) == 1 && len(assoc) == 0 {
				v = dense[0]
				continue
			}
		}
		return fmt.Sprintf("%d levels around %s", n, canon(v, true))
	}
}

type amfProbe struct {
	name string
	data []byte // decoded, when not nil
	val  interface{}
	do   func(d interface{}) string // when neither
}

func amfProbes(amf3 bool) []amfProbe {
	long := rep(66000)
	deep := func(b []byte) func(d interface{}) string {
		return func(d interface{}) string {
			r := bytes.NewReader(b)
			v, err := decWith(d, r)
			return fmt.Sprintf("%s, error %v, %d bytes left", unwrap(v), err != nil, r.Len())
		}
	}
	l := []amfProbe{
		{name: "1000 nested arrays", do: deep(deepArrays(amf3, 999))},
		{name: "500 nested objects", do: deep(deepObjects(amf3, 500))},
		{"flat array", deepArrays(amf3, 1), nil, nil},
		{"encoded nested value", nil, amf.Array{amf.Object{"k": amf.Array{1.0, "x", nil}}, amf.TypedObject{Type: "T", Object: amf.Object{"a": true}}}, nil},
		{name: "encoded long string", do: func(d interface{}) string {
			var w bytes.Buffer
			n, err := d.(amf.Encoder).Encode(&w, long)
			head := w.Bytes()[:min(6, w.Len())]
			return fmt.Sprintf("%x then the text %v, %d reported, error %v", head, bytes.HasSuffix(w.Bytes(), []byte(long)), n, err != nil)
		}},
		{name: "encoded batch", do: func(d interface{}) string {
			var w bytes.Buffer
			err := d.(amf.Encoder).EncodeBatch(&w, "a", amf.Array{true}, nil)
			return fmt.Sprintf("%x, error %v", w.Bytes(), err != nil)
		}},
		{name: "decoded batch", do: func(d interface{}) string {
			a := deepArrays(amf3, 2)
			l, err := d.(amf.Decoder).DecodeBatch(bytes.NewReader(cat(a, a, a)))
			return fmt.Sprintf("%s, error %v", canon(amf.Array(l), true), err != nil)
		}},
	}
	if amf3 {
		return append(l, amfProbe{name: "class T", data: []byte{10, 0x13, 3, 'T', 3, 'b', 3}}, amfProbe{name: "encoded class T", val: amf.TypedObject{Type: "T", Object: amf.Object{"d": 1.5}}},
			amfProbe{name: "class D", data: []byte{10, 0x23, 3, 'D', 3, 'p', 3, 'q', 3, 2}}, amfProbe{name: "encoded class D", val: amf.TypedObject{Type: "D", Object: amf.Object{"s": nil, "t": "u"}}},
			amfProbe{name: "string", data: b3str("abc")}, amfProbe{name: "external object", data: []byte{10, 7, 3, 'X', 4, 5}}, amfProbe{name: "dynamic object", data: []byte{10, 11, 3, 'C', 3, 'k', 3, 1}},
			amfProbe{name: "message object", data: cat([]byte{10, 7}, b3utf("DSK"), []byte{1, 4, 1, 0, 0})}, amfProbe{name: "byte array", data: []byte{12, 9, 1, 2, 3, 4}})
	}
	return append(l, amfProbe{name: "embedded class T", data: []byte{17, 10, 0x13, 3, 'T', 3, 'b', 3}}, amfProbe{name: "encoded class T", val: amf.TypedObject{Type: "T", Object: amf.Object{"d": 1.5}}},
		amfProbe{name: "string", data: b0str("abc")}, amfProbe{name: "embedded AMF3 array", do: deep(cat([]byte{17}, deepArrays(true, 998)))}, amfProbe{name: "typed object", data: cat([]byte{16}, b0utf("T"), b0utf("k"), []byte{5, 0, 0, 9})},
		amfProbe{name: "associative array", data: cat([]byte{8}, be32(1), b0utf("k"), []byte{5, 0, 0, 9})}, amfProbe{name: "embedded external object", data: []byte{17, 10, 7, 3, 'X', 4, 5}},
		amfProbe{name: "other encoder entries", do: func(d interface{}) string {
			e := d.(*amf.EnDecAMF0)
			var w bytes.Buffer
			out := ""
			for _, f := range []func() (int, error){
				func() (int, error) { return e.EncodeWithAMF3(&w, amf.Object{"k": "v"}) },
				func() (int, error) {
					return e.EncodeWithAMF3(&w, amf.TypedObject{Type: "T", Object: amf.Object{"e": "v"}})
				},
				func() (int, error) { return e.EncodeXmlDocument(&w, "<a/>") },
				func() (int, error) { return e.EncodeEcmaArray(&w, amf.Object{"k": amf.Array{1}}) },
				func() (int, error) { return e.EncodeReference(&w, 7) },
				func() (int, error) { return e.EncodeUndefined(&w) },
				func() (int, error) { return e.EncodeUnsupported(&w) },
			} {
				n, err := f()
				out += fmt.Sprint(n, err != nil, " ")
			}
			return fmt.Sprintf("%x %s", w.Bytes(), out)
		}})
}

// probeAmf runs one probe on d and renders what it gave.
func probeAmf(d interface{}, p amfProbe) string {
	if p.do != nil {
		return p.do(d)
	}
	if p.data != nil {
		r := bytes.NewReader(p.data)
		v, err := decWith(d, r)
		return fmt.Sprintf("%s, error %v, %d bytes left", canon(v, true), err != nil, r.Len())
	}
	var w bytes.Buffer
	n, err := d.(amf.Encoder).Encode(&w, p.val)
	return fmt.Sprintf("%s, %d reported, error %v", hex.EncodeToString(w.Bytes()), n, err != nil)
}

// ---- a receiver that knows nothing but the transport stream ----

type tsProgram struct {
	pids    []int       // in program map order
	types   map[int]int // PID -> stream type
	units   map[int][]pesUnit
	first   map[int]int // PID -> first continuity counter
	last    map[int]int
	service bool
}

// receive reads a transport stream from its start: it finds the program map
// through the program association and the streams through the program map.
func receive(c *Ctx, b []byte, what string) *tsProgram {
	pk, err := readTs(b)
	c.Check(err == nil, "%s: %v", what, err)
	t := &tsProgram{types: map[int]int{}, units: map[int][]pesUnit{}, first: map[int]int{}, last: map[int]int{}}
	pmtPID := -1
	open := map[int][]byte{}
	closeUnit := func(pid int) {
		d, ok := open[pid]
		if !ok {
			return
		}
		delete(open, pid)
		u, err := readPes(d)
		c.Check(err == nil, "%s: unit on PID %x: %v", what, pid, err)
		t.units[pid] = append(t.units[pid], u)
	}
	for i, p := range pk {
		if l, ok := t.last[p.pid]; ok {
			c.Check(p.cc == (l+1)&15, "%s: packet %d: continuity counter %d after %d on PID %x", what, i, p.cc, l, p.pid)
		} else {
			t.first[p.pid] = p.cc
		}
		t.last[p.pid] = p.cc
		switch {
		case p.pid == 0:
			s, err := readSection(b[i*188 : (i+1)*188])
			c.Check(err == nil && s.table == 0 && len(s.body) == 4, "%s: program association: %v", what, err)
			pmtPID = int(s.body[2]&31)<<8 | int(s.body[3])
		case p.pid == 0x11:
			s, err := readSection(b[i*188 : (i+1)*188])
			c.Check(err == nil && s.table == 0x42, "%s: service description: %v", what, err)
			t.service = true
		case p.pid == pmtPID:
			s, err := readSection(b[i*188 : (i+1)*188])
			c.Check(err == nil && s.table == 2 && len(s.body) >= 4, "%s: program map: %v", what, err)
			d := s.body[4+(int(s.body[2]&15)<<8|int(s.body[3])):]
			t.pids = nil
			for len(d) >= 5 {
				pid := int(d[1]&31)<<8 | int(d[2])
				t.types[pid] = int(d[0])
				t.pids = append(t.pids, pid)
				d = d[5+(int(d[3]&15)<<8|int(d[4])):]
			}
		default:
			_, ok := t.types[p.pid]
			c.Check(ok, "%s: packet %d on PID %x, which the program map seen so far does not list", what, i, p.pid)
			if p.pusi {
				closeUnit(p.pid)
				open[p.pid] = []byte{}
			}
			_, ok = open[p.pid]
			c.Check(ok, "%s: packet %d on PID %x continues nothing", what, i, p.pid)
			open[p.pid] = append(open[p.pid], p.payload...)
		}
	}
	for pid := range t.types {
		closeUnit(pid)
	}
	return t
}

func (t *tsProgram) pidOf(typ int) int {
	for _, p := range t.pids {
		if t.types[p] == typ {
			return p
		}
	}
	return -1
}

// viewer turns packets into FLV and TS as a server does for one consumer, and
// holds what an ideal viewer of each output must see.
type viewer struct {
	c        *Ctx
	fw, tw   bytes.Buffer
	fm       *flv.Mixer
	tm       *ts.Mixer
	dmx      *flv.Demuxer
	started  bool
	meta     []byte // script body of the latest metadata
	h        h264Model
	a        aacModel
	vh, ah   []byte
	tags     []refTag
	video    [][]byte
	vtimes   [][2]int64
	audio    [][]byte
	ahdrs    []aacModel
	name     string
	announce [2]bool // video, audio listed in the program map
}

func newViewer(c *Ctx, name string) *viewer {
	v := &viewer{c: c, name: name, dmx: flv.NewDemuxer()}
	v.fm, v.tm = flv.NewMixer(&v.fw), ts.NewMixer(&v.tw)
	return v
}

func (v *viewer) packet(p *packet.Packet) *packet.Packet {
	return &packet.Packet{Type: p.Type, TimeStamp: p.TimeStamp, Baseline: p.Baseline, StreamID: p.StreamID, Data: p.Data}
}

func (v *viewer) demuxed(p *packet.Packet) *packet.Packet {
	q := v.packet(p)
	v.c.Check(v.dmx.Demux(q) == nil, "%s: packet %s refused", v.name, hx(p.Data))
	return q
}

// Write makes a viewer a consumer of the stream cache.
func (v *viewer) Write(p *packet.Packet) error {
	v.feed(p)
	return nil
}

func (v *viewer) feed(p *packet.Packet) {
	c := v.c
	hdr := p.Type != packet.PktMetadata && p.Data[1] == 0
	switch {
	case p.Type == packet.PktMetadata:
		// delivered in order as a script tag
		v.meta = append([]byte{}, p.Data...)
		if v.started {
			v.muxFlv(p)
		}
	case hdr && p.Type == packet.PktVideo:
		c.Check(v.fm.SaveAVCHeader(v.packet(p)) == nil && v.tm.SaveAVCHeader(v.demuxed(p)) == nil, "%s: video header refused", v.name)
		v.vh = p.Data
		v.h.parse(p.Data[5:], true)
		if v.started {
			v.muxFlv(p)
		}
	case hdr:
		c.Check(v.fm.SaveAACHeader(v.packet(p)) == nil && v.tm.SaveAACHeader(v.demuxed(p)) == nil, "%s: audio header refused", v.name)
		v.ah = p.Data
		obj, idx, ch, _ := aacInDomain(p.Data[2:])
		v.a = aacModel{known: true, obj: obj, idx: idx, ch: ch}
		if v.started {
			v.muxFlv(p)
		}
	default:
		want := [2]bool{v.vh != nil, v.ah != nil}
		if !v.started {
			c.Check(v.fm.SetFlvHeader() == nil, "%s: FLV start refused", v.name)
			if v.vh != nil {
				v.tags = append(v.tags, refTag{9, 0, v.vh})
			}
			if v.ah != nil {
				v.tags = append(v.tags, refTag{8, 0, v.ah})
			}
			if v.meta != nil {
				v.muxFlv(vary(&packet.Packet{Type: packet.PktMetadata, Data: v.meta, TimeStamp: p.TimeStamp}, 1))
			}
		}
		if !v.started || want != v.announce {
			c.Check(v.tm.SetTsHeader() == nil, "%s: TS tables refused", v.name)
			v.announce = want
		}
		v.started = true
		v.muxFlv(p)
		v.muxTs(p)
	}
}

func (v *viewer) muxFlv(p *packet.Packet) {
	v.c.Check(v.fm.Mux(v.packet(p), p.TimeStamp) == nil, "%s: FLV muxer refused %s", v.name, hx(p.Data))
	typ, _ := tagType(p.Type)
	body := p.Data
	if p.Type == packet.PktMetadata {
		body = bytes.TrimPrefix(body, b0str("@setDataFrame"))
	}
	v.tags = append(v.tags, refTag{typ, p.TimeStamp, body})
}

func (v *viewer) muxTs(p *packet.Packet) {
	c := v.c
	q := v.demuxed(p)
	if p.Type == packet.PktVideo {
		if v.vh == nil {
			return // not announced, so not sent
		}
		ct := q.Header.(packet.VideoPacketHeader).CompositionTime()
		c.Check(v.tm.Update(q, p.TimeStamp, uint32(ct)) == nil && v.tm.Mux(q) == nil, "%s: TS mixer refused %s", v.name, hx(p.Data))
		out, ok := v.h.parse(p.Data[5:], false)
		c.Check(ok, "harness: bad video packet")
		off := int64(be24at(p.Data[2:]))
		if off >= 1<<23 {
			off -= 1 << 24
		}
		dts := int64(p.TimeStamp) * 90
		v.video = append(v.video, out)
		v.vtimes = append(v.vtimes, [2]int64{mod33(dts + off*90), mod33(dts)})
		return
	}
	if v.ah == nil {
		return
	}
	c.Check(v.tm.Update(q, p.TimeStamp, 0) == nil && v.tm.Mux(q) == nil, "%s: TS mixer refused %s", v.name, hx(p.Data))
	v.audio = append(v.audio, p.Data[2:])
	v.ahdrs = append(v.ahdrs, v.a)
}

// judge compares everything written with what the viewer was given.
func (v *viewer) judge() {
	c := v.c
	if !v.started {
		c.Check(v.fw.Len() == 0 && v.tw.Len() == 0, "%s: output before the first frame", v.name)
		return
	}
	out := v.fw.Bytes()
	c.Check(len(out) >= 13 && bytes.Equal(out[:3], []byte("FLV")), "%s: no FLV header", v.name)
	tags, err := refFlvTags(out[13:])
	c.Check(err == nil && len(tags) == len(v.tags), "%s: FLV output has %d tags (%v), want %d", v.name, len(tags), err, len(v.tags))
	for i := range tags {
		c.Check(tags[i].eq(v.tags[i]), "%s: FLV tag %d is %v, want %v", v.name, i, tags[i], v.tags[i])
	}
	t := receive(c, v.tw.Bytes(), v.name)
	c.Check(v.announce == [2]bool{t.pidOf(0x1b) >= 0, t.pidOf(0x0f) >= 0}, "%s: program map lists %v, want video, audio %v", v.name, t.types, v.announce)
	us := t.units[t.pidOf(0x1b)]
	c.Check(len(us) == len(v.video), "%s: %d video units received, want %d", v.name, len(us), len(v.video))
	for i, u := range us {
		c.Check(bytes.Equal(u.payload, v.video[i]), "%s: video unit %d is %s, want %s", v.name, i, hx(u.payload), hx(v.video[i]))
		dts := u.pts
		if u.hasDTS {
			dts = u.dts
		}
		c.Check(u.pts == v.vtimes[i][0] && dts == v.vtimes[i][1], "%s: video unit %d at %d/%d, want %v", v.name, i, u.pts, dts, v.vtimes[i])
	}
	us = t.units[t.pidOf(0x0f)]
	c.Check(len(us) == len(v.audio), "%s: %d audio frames received, want %d", v.name, len(us), len(v.audio))
	for i, u := range us {
		err := v.ahdrs[i].checkADTS(u.payload, v.audio[i])
		c.Check(err == nil, "%s: audio frame %d: %v", v.name, i, err)
	}
}

// cutter drives one mixer whose output is switched and one whose output is not.
type cutPart struct {
	w            *bytes.Buffer
	video, audio [][]byte
	a            []aacModel
	va, aa       bool
}

type cutter struct {
	m     *ts.Mixer
	parts []*cutPart
	h     h264Model
	a     aacModel
	va    bool
	now   uint32
	ref   *ts.Mixer // given the same, but never switched
	refW  bytes.Buffer
}

func (k *cutter) both(f func(m *ts.Mixer) error) bool {
	return f(k.m) == nil && f(k.ref) == nil
}

func init() {
	register(&Prop{
		ID: "A10", Level: "model_checking",
		Rule:        "Every history of failing and succeeding operations within the bounds is run on one codec object; afterwards every probe value must give exactly what a fresh object gives. A state is the multiset of failures so far.",
		Assumptions: []string{"Probe values contain no references; partly decoded values may have entered the reference tables"},
		Build: func(th bool) []*Scenario {
			var ss []*Scenario
			for _, a3 := range []bool{false, true} {
				a3 := a3
				name := map[bool]string{false: "amf0", true: "amf3"}[a3]
				fails, probes := amfFails(a3), amfProbes(a3)
				fresh := make([]string, len(probes))
				for i, p := range probes {
					fresh[i] = probeAmf(newDec(a3), p)
				}
				all := func(c *Ctx, d interface{}, what string) {
					for i, p := range probes {
						got := probeAmf(d, p)
						c.Check(got == fresh[i], "%s: %s gives %s, a fresh codec gives %s", what, p.name, clip(got, 200), clip(fresh[i], 200))
					}
				}
				counts := []int{1, 2, 3, 31, 32, 33, 255, 256, 1023, 1024, 1025, 2100}
				ss = append(ss, &Scenario{Name: name + "-repeats", Note: fmt.Sprintf("each of %d failing operations repeated 1..%d times in %d counts, then %d probe values", len(fails), counts[len(counts)-1], len(counts), len(probes)), Run: func(c *Ctx) {
					f := fails[c.Choose(len(fails))]
					n := counts[c.Choose(len(counts))]
					if strings.Contains(f.name, "beyond") && n > 256 {
						n = 257
					}
					d := newDec(a3)
					for i := 0; i < n; i++ {
						c.Check(f.do(d) != nil, "%s: no error", f.name)
					}
					c.Step(n)
					all(c, d, fmt.Sprintf("after %d x %s", n, f.name))
					c.Eval(len(probes))
					c.State(f.name, n)
					c.Outcome(f.name, n)
				}})
				depth := pick(3, 4)
				ss = append(ss, &Scenario{Name: name + "-histories", Note: fmt.Sprintf("every sequence of %d operations over %d failing ones and %d probes, each probe compared at every step, all of them at the end", depth, len(fails), len(probes)), Run: func(c *Ctx) {
					d := newDec(a3)
					what := "start"
					for i := 0; i < depth; i++ {
						k := c.Choose(len(fails) + len(probes))
						if k < len(fails) {
							c.Check(fails[k].do(d) != nil, "%s: no error", fails[k].name)
							what = fails[k].name
						} else {
							p := probes[k-len(fails)]
							got := probeAmf(d, p)
							c.Check(got == fresh[k-len(fails)], "after %s: %s gives %s, a fresh codec gives %s", what, p.name, clip(got, 200), clip(fresh[k-len(fails)], 200))
							what = p.name
						}
						c.Step(1)
						c.State(name, i, what)
					}
					all(c, d, "after "+what)
					c.Eval(1)
				}})
			}
			msgs := corpus()
			ss = append(ss, chunked("cuts", "every cut of every corpus message decoded 1 and 1100 times on one decoder, then every probe value", len(msgs), 1, func(c *Ctx, i int) {
				m := msgs[i]
				if len(m.data) > 200 {
					return
				}
				probes := amfProbes(m.amf3)
				for cut := 1; cut < len(m.data); cut++ {
					d := newDec(m.amf3)
					for k := 0; k < 1100; k++ {
						decWith(d, bytes.NewReader(m.data[:cut]))
						if k == 0 || k == 1099 {
							for _, p := range probes {
								got, want := probeAmf(d, p), probeAmf(newDec(m.amf3), p)
								c.Check(got == want, "after %d x %s: %s gives %s, a fresh codec gives %s", k+1, hx(m.data[:cut]), p.name, clip(got, 200), clip(want, 200))
							}
						}
						// the next failure starts from a table that is no larger than one message makes it
						if k%100 == 99 {
							c.Step(100)
						}
					}
				}
				c.Outcome(i)
			}))
			return ss
		},
	})

	cfg := avcc([]byte{0x67, 0x4d, 1, 2}, []byte{0x68, 0xee, 3})
	cfg2 := avcc([]byte{0x67, 0x64, 9}, []byte{0x68, 1})
	bigKey := vidData(true, false, 80, nal(cat([]byte{0x65}, repBytes(400, 3))...))
	keySets := vidData(true, false, 0, cat(nal(0x67, 7, 7), nal(0x68, 8), nal(cat([]byte{0x65}, repBytes(190, 4))...)))
	inter := vidData(false, false, 0xffffd8, nal(cat([]byte{0x41}, repBytes(20, 2))...))
	// an audio header as long as the second video header
	longAac := cat([]byte{0xaf, 0, 0x12, 0x10}, make([]byte, len(vidData(true, true, 0, cfg2))-4))
	script := cat(b0str("@setDataFrame"), b0str("onMetaData"), []byte{3}, b0utf("w"), b0num(3), []byte{0, 0, 9})

	register(&Prop{
		ID: "T09", Level: "model_checking",
		Rule:        "Every history of packets, cuts and header changes within the bounds is muxed by the real mixer; every part is read by a receiver that starts with no knowledge, and its units are compared with those of the packets muxed into that part. A state is the parameter sets, audio configuration and announced streams at a cut.",
		Assumptions: []string{"Key frames that fit one TS packet are judged under T01", "A part is cut by setting a new output and requesting the tables; only media kinds with a saved header are muxed"},
		Build: func(th bool) []*Scenario {
			type op struct {
				name string
				pt   int
				data []byte
			}
			ops := []op{
				{"cut", -1, nil}, {"key frame", packet.PktVideo, bigKey}, {"key frame with parameter sets", packet.PktVideo, keySets}, {"inter frame", packet.PktVideo, inter},
				{"audio", packet.PktAudio, cat([]byte{0xaf, 1}, repBytes(150, 5))}, {"long audio", packet.PktAudio, cat([]byte{0xaf, 1}, repBytes(500, 6))},
				{"video header", packet.PktVideo, vidData(true, true, 0, cfg2)}, {"audio header", packet.PktAudio, []byte{0xaf, 0, 0x11, 0x90}}, {"tables again", -2, nil}, {"metadata", -3, nil},
			}
			depth := pick(5, 6)
			start := func(c *Ctx, kinds int) *cutter {
				k := &cutter{now: 1000}
				k.m = ts.NewMixer(&bytes.Buffer{})
				k.ref = ts.NewMixer(&k.refW)
				if kinds != 2 {
					k.va = true
					k.h.parse(cfg, true)
					c.Check(k.both(func(m *ts.Mixer) error {
						return m.SaveAVCHeader(mustDemux(c, packet.PktVideo, vidData(true, true, 0, cfg)))
					}), "video header refused")
				}
				if kinds != 1 {
					k.a = aacModel{known: true, obj: 2, idx: 4, ch: 2}
					c.Check(k.both(func(m *ts.Mixer) error {
						return m.SaveAACHeader(mustDemux(c, packet.PktAudio, []byte{0xaf, 0, 0x12, 0x10}))
					}), "audio header refused")
				}
				k.both((*ts.Mixer).SetTsHeader)
				return k
			}
			cut := func(c *Ctx, k *cutter) {
				p := &cutPart{w: &bytes.Buffer{}}
				k.m.SetWriter(p.w)
				c.Check(k.both((*ts.Mixer).SetTsHeader), "tables refused")
				p.va, p.aa = k.va, k.a.known
				k.parts = append(k.parts, p)
				c.State(k.h.sets, k.a, k.va, len(k.parts))
			}
			step := func(c *Ctx, k *cutter, o op) {
				switch {
				case o.pt == -1:
					cut(c, k)
					return
				case o.pt == -2:
					c.Check(k.both((*ts.Mixer).SetTsHeader), "tables refused")
					p := k.parts[len(k.parts)-1]
					p.va, p.aa = p.va || k.va, p.aa || k.a.known
					return
				case o.pt == -3:
					c.Check(k.both(func(m *ts.Mixer) error {
						return m.SaveMetadata(amf.Object{"Provider": "p", "Service": fmt.Sprint("s", k.now)})
					}), "metadata refused")
					return
				}
				p := k.parts[len(k.parts)-1]
				switch {
				case o.data[1] == 0 && o.pt == packet.PktVideo:
					c.Check(k.both(func(m *ts.Mixer) error { return m.SaveAVCHeader(mustDemux(c, o.pt, o.data)) }), "video header refused")
					k.va = true
					k.h.parse(o.data[5:], true)
				case o.data[1] == 0:
					c.Check(k.both(func(m *ts.Mixer) error { return m.SaveAACHeader(mustDemux(c, o.pt, o.data)) }), "audio header refused")
					obj, idx, ch, _ := aacInDomain(o.data[2:])
					k.a = aacModel{known: true, obj: obj, idx: idx, ch: ch}
				case o.pt == packet.PktVideo:
					if !p.va {
						return
					}
					k.now += 40
					c.Check(k.both(func(m *ts.Mixer) error {
						q := mustDemux(c, o.pt, o.data)
						if err := m.Update(q, k.now, uint32(q.Header.(packet.VideoPacketHeader).CompositionTime())); err != nil {
							return err
						}
						return m.Mux(q)
					}), "video refused")
					out, _ := k.h.parse(o.data[5:], false)
					p.video = append(p.video, out)
				default:
					if !p.aa {
						return
					}
					k.now += 23
					c.Check(k.both(func(m *ts.Mixer) error {
						q := mustDemux(c, o.pt, o.data)
						if err := m.Update(q, k.now, 0); err != nil {
							return err
						}
						return m.Mux(q)
					}), "audio refused")
					p.audio = append(p.audio, o.data[2:])
					p.a = append(p.a, k.a)
				}
			}
			judge := func(c *Ctx, k *cutter) {
				last := map[int]int{}
				var whole []byte
				for i, p := range k.parts {
					what := fmt.Sprintf("part %d of %d", i+1, len(k.parts))
					t := receive(c, p.w.Bytes(), what)
					c.Check(t.service, "%s: no service description", what)
					c.Check((t.pidOf(0x1b) >= 0) == p.va && (t.pidOf(0x0f) >= 0) == p.aa, "%s: program map lists %v, want video %v audio %v", what, t.types, p.va, p.aa)
					vu, au := t.units[t.pidOf(0x1b)], t.units[t.pidOf(0x0f)]
					c.Check(len(vu) == len(p.video) && len(au) == len(p.audio), "%s: %d video and %d audio units received, want %d and %d", what, len(vu), len(au), len(p.video), len(p.audio))
					for j, u := range vu {
						c.Check(bytes.Equal(u.payload, p.video[j]), "%s: video unit %d is %s, want %s", what, j, hx(u.payload), hx(p.video[j]))
					}
					for j, u := range au {
						err := p.a[j].checkADTS(u.payload, p.audio[j])
						c.Check(err == nil, "%s: audio frame %d: %v", what, j, err)
					}
					for pid, cc := range t.first {
						if l, ok := last[pid]; ok {
							c.Check(cc == (l+1)&15, "%s: continuity counter %d after %d in the part before, PID %x", what, cc, l, pid)
						}
					}
					for pid, cc := range t.last {
						last[pid] = cc
					}
					whole = append(whole, p.w.Bytes()...)
				}
				n := 0
				t := receive(c, whole, "all parts together")
				for _, us := range t.units {
					n += len(us)
				}
				one := receive(c, k.refW.Bytes(), "the stream that was never cut")
				for pid, us := range t.units {
					c.Check(len(us) == len(one.units[pid]), "all parts together: %d units on PID %x, %d without cuts", len(us), pid, len(one.units[pid]))
					for i, u := range us {
						v := one.units[pid][i]
						c.Check(bytes.Equal(u.payload, v.payload) && u.pts == v.pts && u.hasDTS == v.hasDTS && u.dts == v.dts, "all parts together: unit %d on PID %x differs from that of the stream without cuts (times %d/%d, %d/%d)", i, pid, u.pts, u.dts, v.pts, v.dts)
					}
				}
				for _, p := range k.parts {
					n -= len(p.video) + len(p.audio)
				}
				c.Check(n == 0, "all parts together: %d units more than muxed", n)
				c.Outcome(whole)
			}
			var ss []*Scenario
			ss = append(ss, &Scenario{Name: "histories", Note: fmt.Sprintf("video and audio, video only, audio only x every history of %d of %d operations after a first cut", depth, len(ops)), Run: func(c *Ctx) {
				k := start(c, c.Choose(3))
				cut(c, k)
				for i := 0; i < depth; i++ {
					o := ops[c.Choose(len(ops))]
					c.Logf("%s", o.name)
					step(c, k, o)
					c.Step(1)
				}
				judge(c, k)
				c.Eval(1)
			}})
			ss = append(ss, chunked("regular", "streams of 120 packets of every mix, cut every 1..40 packets", 40*6, 6, func(c *Ctx, i int) {
				every, mix := i/6+1, i%6
				k := start(c, 0)
				cut(c, k)
				for x := 0; x < 120; x++ {
					if x%every == every-1 {
						cut(c, k)
					}
					step(c, k, ops[1+(x*(mix+1)+x/7*mix)%7])
				}
				judge(c, k)
			}))
			return ss
		},
	})

	register(&Prop{
		ID: "J01", Level: "model_checking",
		Rule:        "Every history of stream packets within the bounds runs through the real cache, demuxer and mixers, with a second consumer joining after every prefix; both consumers' FLV and TS outputs are read independently and compared with what each was given. A state is the cache content at the join.",
		Assumptions: []string{"Every consumer demuxes its own packet object over the shared data; frames before their sequence header are not sent to TS; script tags are muxed in order"},
		Build: func(th bool) []*Scenario {
			type op struct {
				name string
				pt   int
				data []byte
			}
			ops := []op{
				{"metadata", packet.PktMetadata, script}, {"video header", packet.PktVideo, vidData(true, true, 0, cfg)}, {"second video header", packet.PktVideo, vidData(true, true, 0, cfg2)}, {"audio header", packet.PktAudio, longAac},
				{"key frame", packet.PktVideo, bigKey}, {"key frame with parameter sets", packet.PktVideo, keySets}, {"inter frame", packet.PktVideo, inter}, {"audio", packet.PktAudio, cat([]byte{0xaf, 1}, repBytes(30, 5))},
			}
			run := func(c *Ctx, n int, hist []op, join, pattern int) {
				cache := gop.NewCache(n)
				m := &fullModel{g: gopModel{n: n}}
				early := newViewer(c, "early consumer")
				var late *viewer
				var fed []*packet.Packet
				src := flv.NewDemuxer()
				for i := 0; i <= len(hist); i++ {
					if i == join {
						late = newViewer(c, "late consumer")
						sink := &pktSink{failAt: -1}
						c.Check(cache.SendTo(sink) == nil, "replay failed")
						want := m.flat()
						c.Check(samePkts(sink.got, want), "replay delivers%s, want%s", pktNames(sink.got), pktNames(want))
						c.Check(cache.SendTo(late) == nil, "replay failed")
						if len(m.g.groups) > 0 {
							f := m.g.groups[0][0]
							c.Check(late.started && f.Data[0]>>4 == 1, "late consumer does not start with a key frame")
						}
						c.State(pktNames(want), n)
					}
					if i == len(hist) {
						break
					}
					o := hist[i]
					p := vary(&packet.Packet{Type: o.pt, TimeStamp: streamTime(pattern, i), Data: o.data}, i)
					if o.pt != packet.PktMetadata {
						c.Check(src.Demux(p) == nil, "packet refused")
					}
					err := cache.Write(p)
					ok := true
					switch {
					case o.pt == packet.PktMetadata:
						m.meta = p
					case o.data[1] == 0 && o.pt == packet.PktVideo:
						m.vhdr = p
					case o.data[1] == 0:
						m.ahdr = p
					case o.pt == packet.PktVideo:
						ok = m.g.write(p, o.data[0]>>4 == 1)
					}
					c.Check((err == nil) == ok, "packet %d (%s): cache error %v", i, o.name, err)
					fed = append(fed, p)
					early.feed(p)
					if late != nil {
						late.feed(p)
					}
					c.Step(1)
				}
				early.judge()
				late.judge()
				for i, p := range fed {
					if o := hist[i]; !bytes.Equal(p.Data, o.data) || p.Type != o.pt || p.TimeStamp != streamTime(pattern, i) {
						c.Fail("packet %d (%s) changed", i, o.name)
					}
				}
				c.Outcome(early.tw.Bytes(), late.tw.Bytes(), late.fw.Bytes())
			}
			depth := pick(5, 6)
			var ss []*Scenario
			ss = append(ss, &Scenario{Name: "histories", Note: fmt.Sprintf("caches for 1..2 groups x every history of up to %d of %d packets with increasing and with irregular times x every join point", depth, len(ops)), Run: func(c *Ctx) {
				n := 1 + c.Choose(2)
				l := 1 + c.Choose(depth)
				hist := make([]op, l)
				for i := range hist {
					hist[i] = ops[c.Choose(len(ops))]
					c.Logf("%s", hist[i].name)
				}
				join := c.Choose(l + 1)
				c.Logf("join after %d", join)
				run(c, n, hist, join, c.Choose(2))
				c.Eval(1)
			}})
			near := func(b []byte) []byte { // the same bytes but one in the middle
				b = append([]byte{}, b...)
				b[len(b)-6] ^= 0x40
				return b
			}
			alike := []op{{"key frame", packet.PktVideo, bigKey}, {"near key frame", packet.PktVideo, near(bigKey)}, {"inter frame", packet.PktVideo, inter}, {"near inter frame", packet.PktVideo, near(inter)}, ops[7], {"near audio", packet.PktAudio, near(ops[7].data)}, ops[1], ops[3]}
			ss = append(ss, &Scenario{Name: "alike", Note: fmt.Sprintf("both headers, then every history of %d of %d packets that are equal or differ in one byte, at equal, increasing or irregular times, joined after each of the last three", depth-1, len(alike)), Run: func(c *Ctx) {
				pattern := c.Choose(3)
				hist := []op{ops[1], ops[3], ops[4]}
				for i := 0; i < depth-1; i++ {
					hist = append(hist, alike[c.Choose(len(alike))])
				}
				run(c, 1, hist, len(hist)-c.Choose(3), pattern)
				c.Eval(1)
			}})
			ss = append(ss, chunked("streams", "streams of 200 packets with headers: group lengths 1..12, caches for 1..3 groups, joins after every seventh packet", 12*3*29, 8, func(c *Ctx, i int) {
				g, n, join := i%12+1, i/12%3+1, i/36*7
				hist := []op{ops[0], ops[1], ops[3]}
				for x := 0; len(hist) < 200; x++ {
					switch {
					case x == 77:
						hist = append(hist, ops[2])
					case x%3 == 2:
						hist = append(hist, ops[7])
					case x/3*2%g == 0 && x%3 == 0:
						hist = append(hist, ops[4+x%2])
					default:
						hist = append(hist, ops[6])
					}
				}
				run(c, n, hist, join, i%2)
			}))
			return ss
		},
	})

	// ---- S08 ----
	register(&Prop{
		ID: "S08", Level: "model_checking",
		Rule:        "Every combination of typed header lines within the bounds is parsed and every history of setters is run on a real header set; the typed fields and getters are compared with parts known by construction. A state is the set of header values in force.",
		Assumptions: []string{"Header values are well-formed; an absent header may give an empty value or none"},
		Build: func(th bool) []*Scenario {
			type line struct {
				long, compact string
				text          string
				u             uriParts // for addresses
				a, b          string   // CSeq number and method, Via transport and host
			}
			addr := func(long, compact, name, user, host, port string, args map[string]string, text string) line {
				return line{long: long, compact: compact, text: text, u: uriParts{"sip", name, user, host, port, args}}
			}
			kinds := [][]line{
				{addr("From", "f", "Bob", "bob", "b.example", "", map[string]string{"tag": "1"}, `"Bob" <sip:bob@b.example>;tag=1`), addr("From", "f", "", "al", "a.example", "5070", map[string]string{"tag": "zz"}, "sip:al@a.example:5070;tag=zz")},
				{addr("To", "t", "", "34", "10.1.1.1", "5060", map[string]string{}, "<sip:34@10.1.1.1:5060>"), addr("To", "t", "Mr. X", "x", "h", "", map[string]string{"tag": "9"}, `Mr. X <sip:x@h>;tag=9`)},
				{addr("Contact", "m", "", "c", "192.0.2.4", "", map[string]string{"expires": "60"}, "<sip:c@192.0.2.4>;expires=60"), addr("Contact", "m", "", "d", "d", "1", map[string]string{}, "<sip:d@d:1>")},
				{{long: "CSeq", compact: "cseq", text: "20 MESSAGE", a: "20", b: "MESSAGE"}, {long: "CSeq", compact: "cSEQ", text: "4294967295 ACK", a: "4294967295", b: "ACK"}},
				{{long: "Via", compact: "v", text: "SIP/2.0/UDP 192.168.1.102:5060;rport;branch=z9hG4bK1", a: "UDP", b: "192.168.1.102", u: uriParts{port: "5060", args: map[string]string{"rport": "", "branch": "z9hG4bK1"}}}, {long: "Via", compact: "v", text: "SIP/2.0/TLS-SCTP h;branch=z9hG4bK2", a: "TLS-SCTP", b: "h", u: uriParts{args: map[string]string{"branch": "z9hG4bK2"}}}},
			}
			user := func(c *Ctx, u *sips.SIPUser, l *line, what string) {
				if l == nil {
					c.Check(u == nil || (u.User == "" && u.Host == "" && u.Name == "" && u.Port == "" && len(u.Args) == 0), "%s is absent but reported as %v", what, u)
					return
				}
				c.Check(u != nil && sameParts(userParts(u), l.u), "%s is %v, want %v", what, u, l.u)
			}
			cseq := func(c *Ctx, u *sips.SIPCseq, l *line, what string) {
				if l == nil {
					c.Check(u == nil || (u.ID == "" && u.Method == ""), "%s is absent but reported as %v", what, u)
					return
				}
				c.Check(u != nil && u.ID == l.a && u.Method == l.b, "%s is %v, want %s", what, u, l.text)
			}
			via := func(c *Ctx, u *sips.SIPVia, l *line, what string) {
				if l == nil {
					c.Check(u == nil || (u.Trans == "" && u.Host == "" && u.Port == "" && len(u.Args) == 0), "%s is absent but reported as %v", what, u)
					return
				}
				c.Check(u != nil && u.Trans == l.a && u.Host == l.b && u.Port == l.u.port && argsText(u.Args) == argsText(l.u.args), "%s is %v, want %s", what, u, l.text)
			}
			getters := func(c *Ctx, h sips.SIPHeader, in [5]*line, what string) {
				user(c, h.GetSIPFrom(), in[0], what+": From")
				user(c, h.GetSIPTo(), in[1], what+": To")
				user(c, h.GetSIPContact(), in[2], what+": Contact")
				cseq(c, h.GetSIPCseq(), in[3], what+": CSeq")
				via(c, h.GetSIPVia(), in[4], what+": Via")
			}
			fields := func(c *Ctx, s *sips.SIP, in [5]*line, what string) {
				user(c, s.From, in[0], what+": From field")
				user(c, s.To, in[1], what+": To field")
				user(c, s.Contact, in[2], what+": Contact field")
				cseq(c, s.Cseq, in[3], what+": CSeq field")
				via(c, s.Via, in[4], what+": Via field")
				getters(c, s.Headers, in, what)
			}
			var ss []*Scenario
			ss = append(ss, &Scenario{Name: "parsed", Note: "requests and responses x each of From, To, Contact, CSeq, Via absent, in long or short form, in other case, folded, or twice (the first counts) x forward and backward order", Run: func(c *Ctx) {
				resp, back := c.Bool(), c.Bool()
				var in [5]*line
				var hs [][2]string
				for k := range kinds {
					f := c.Choose(6)
					l := kinds[k][0]
					switch f {
					case 0:
						continue
					case 1:
						hs = append(hs, [2]string{l.long, l.text})
					case 2:
						hs = append(hs, [2]string{l.compact, l.text})
					case 3:
						l = kinds[k][1]
						hs = append(hs, [2]string{strings.ToUpper(l.long), l.text})
					case 4:
						hs = append(hs, [2]string{l.long, strings.Replace(l.text, " ", "\r\n  ", 1)})
					case 5:
						a, b := kinds[k][1], kinds[k][0]
						if back {
							a, b = b, a
						}
						l = kinds[k][1]
						hs = append(hs, [2]string{a.long, a.text}, [2]string{b.compact, b.text})
					}
					in[k] = &l
				}
				if back {
					for i, j := 0, len(hs)-1; i < j; i, j = i+1, j-1 {
						hs[i], hs[j] = hs[j], hs[i]
					}
				}
				first := "INVITE sip:a@b SIP/2.0"
				if resp {
					first = "SIP/2.0 200 OK"
				}
				hs = append(hs, [2]string{"Content-Length", "0"})
				b := sipText(first, hs, nil)
				c.Logf("%q", b)
				s, err := parseSip(b)
				c.Check(err == nil, "%q: %v", b, err)
				fields(c, s, in, fmt.Sprintf("%q", b))
				c.Eval(1)
				c.State(string(b))
				c.Outcome(fmt.Sprint(s.From, s.To, s.Contact, s.Cseq, s.Via))
			}})
			// first values that are unlike the ones that follow
			odd := []string{"*", "", "<sip:zz@zz.example>", "sip:zz", "<>", `"zz"`, "sip:@zz", "tel:+1"}
			ss = append(ss, chunked("first-counts", fmt.Sprintf("From, To and Contact with each of %d first values followed by an ordinary one, received, and in the header map: the second never shows", len(odd)), 3*len(odd)*4, 4, func(c *Ctx, i int) {
				k, v, form := i/4/len(odd), odd[i/4%len(odd)], i%4
				l := kinds[k][0]
				h := sips.SIPHeader{strings.ToLower(l.long): []string{v, l.text}}
				alone := sips.SIPHeader{strings.ToLower(l.long): []string{v}}
				if form > 0 {
					s, err := parseSip(sipText("INVITE sip:a@b SIP/2.0", [][2]string{{[]string{l.long, l.compact}[form&1], v}, {l.compact, l.text}, {"Content-Length", "0"}}, nil))
					c.Check(err == nil, "%q: %v", v, err)
					if form > 1 {
						q, err := parseSip(sipText("INVITE sip:a@b SIP/2.0", [][2]string{{l.long, v}, {"Content-Length", "0"}}, nil))
						c.Check(err == nil, "%q: %v", v, err)
						got, want := []*sips.SIPUser{s.From, s.To, s.Contact}[k], []*sips.SIPUser{q.From, q.To, q.Contact}[k]
						c.Check((got == nil) == (want == nil) && (got == nil || sameParts(userParts(got), userParts(want))), "%s %q followed by %q gives %v, alone %v", l.long, v, l.text, got, want)
					}
					h = s.Headers
				}
				get := func(h sips.SIPHeader) *sips.SIPUser {
					return []func() *sips.SIPUser{h.GetSIPFrom, h.GetSIPTo, h.GetSIPContact}[k]()
				}
				got, want := get(h), get(alone)
				c.Check((got == nil) == (want == nil) && (got == nil || sameParts(userParts(got), userParts(want))), "%s %q followed by %q gives %v, alone %v", l.long, v, l.text, got, want)
				c.State(i)
				c.Outcome(v, k, form)
			}))
			ids := []string{"0", "1", "7", "00", "007", "0000000000", "000000000012", "2147483647", "2147483648", "4294967295", "4294967296", "99999999999999999999", strings.Repeat("1234567890", 5)}
			ss = append(ss, chunked("cseq-numbers", fmt.Sprintf("every CSeq number 0..2000 and %d others with leading zeros and of 1 to 50 digits x 3 methods, parsed, received and set", len(ids)), 2001+len(ids), 16, func(c *Ctx, i int) {
				id := strconv.Itoa(i)
				if i > 2000 {
					id = ids[i-2001]
				}
				for _, m := range []string{"INVITE", "ACK", "REGISTER"} {
					t := id + " " + m
					l := &line{a: id, b: m, text: t}
					q := sips.NewSIPCseq(t)
					cseq(c, q, l, "CSeq parsed")
					h := sips.NewSIPHeader()
					h.SetSIPCseq(q)
					cseq(c, h.GetSIPCseq(), l, "CSeq set")
					s, err := parseSip(sipText("INVITE sip:a@b SIP/2.0", [][2]string{{"CSeq", t}, {"Content-Length", "0"}}, nil))
					c.Check(err == nil, "%q: %v", t, err)
					cseq(c, s.Cseq, l, "CSeq field")
					c.Eval(3)
				}
				c.State(id)
				c.Outcome(id)
			}))
			ss = append(ss, chunked("part-lengths", "CSeq methods and numbers, digest parameters, parts of From and Via of every length up to 1100 and around powers of two up to 65536, parsed and received", len(textLens), 8, func(c *Ctx, i int) {
				n := textLens[i]
				tok := strings.Repeat("aB3-", n/4+1)[:n]
				dig := strings.Repeat("9876543210", n/10+1)[:n]
				q := &line{a: "1", b: tok, text: "CSeq with a method of " + strconv.Itoa(n)}
				cseq(c, sips.NewSIPCseq("1 "+tok), q, "CSeq parsed")
				q2 := &line{a: dig, b: "BYE", text: "CSeq with a number of " + strconv.Itoa(n)}
				cseq(c, sips.NewSIPCseq(dig+" BYE"), q2, "CSeq parsed")
				want := map[string]string{"nonce": tok, "uri": tok + ";x, y", "qop": "auth", "k" + tok: dig}
				auth := `Digest nonce="` + tok + `", uri="` + tok + `;x, y",k` + tok + "=" + dig + ", qop=auth"
				c.Check(argsText(sips.NewSIPAuth(auth).Args) == argsText(want), "digest with parameters of %d bytes differs", n)
				via1 := &line{a: tok, b: tok, text: "Via", u: uriParts{port: "1", args: map[string]string{"branch": tok, "z": ""}}}
				from := &line{u: uriParts{"sip", tok, tok, tok, "5", map[string]string{"tag": tok}}}
				s, err := parseSip(sipText("INVITE sip:a@b SIP/2.0", [][2]string{{"CSeq", "1 " + tok}, {"Authorization", auth}, {"v", "SIP/2.0/" + tok + " " + tok + ":1;branch=" + tok + ";z"}, {"f", `"` + tok + `" <sip:` + tok + "@" + tok + ":5>;tag=" + tok}, {"Content-Length", "0"}}, nil))
				c.Check(err == nil, "message with parts of %d bytes: %v", n, err)
				cseq(c, s.Cseq, q, "CSeq field")
				via(c, s.Via, via1, "Via field")
				user(c, s.From, from, "From field")
				user(c, s.Headers.GetSIPFrom(), from, "From")
				via(c, s.Headers.GetSIPVia(), via1, "Via")
				c.Check(argsText(s.Headers.GetAuthorization().Args) == argsText(want), "digest with parameters of %d bytes differs when received", n)
				c.State(n)
				c.Outcome(n)
			}))
			// parameters that could be taken for one of the parts
			vps := []string{"rport", "rport=5062", "received=192.0.2.1", "maddr=239.1.1.1", "ttl=16", "branch=z9hG4bK-1", "received=[2001:db8::1]", "port=7", "host=x", "transport=tcp", "tag=1", "expires=3600", "q=0.5", "user=phone", "lr", "comp=sigcomp", "method=INVITE"}
			ss = append(ss, chunked("parameters", fmt.Sprintf("Via, From and Contact values with and without a port x every ordered pair of %d parameters: they change none of the parts", len(vps)), len(vps)*len(vps)*2, 8, func(c *Ctx, i int) {
				a, b := vps[i/2/len(vps)], vps[i/2%len(vps)]
				args := map[string]string{}
				for _, x := range []string{a, b} {
					kv := strings.SplitN(x, "=", 2)
					args[kv[0]] = strings.Join(kv[1:], "")
				}
				port, pt := "", ""
				if i&1 == 1 {
					port, pt = "5070", ":5070"
				}
				v := &line{a: "UDP", b: "h", text: "Via with " + a + " and " + b, u: uriParts{port: port, args: args}}
				u := &line{u: uriParts{"sip", "", "u", "h", port, args}}
				vt, ut := "SIP/2.0/UDP h"+pt+";"+a+";"+b, "<sip:u@h"+pt+">;"+a+";"+b
				h := sips.NewSIPHeader()
				h.SetFirstHeader("Via", vt)
				h.SetFirstHeader("Contact", ut)
				h.SetFirstHeader("From", ut)
				h.SetFirstHeader("To", ut)
				s, err := parseSip(sipText("INVITE sip:a@b SIP/2.0", [][2]string{{"v", vt}, {"m", ut}, {"f", ut}, {"t", ut}, {"Content-Length", "0"}}, nil))
				c.Check(err == nil, "%q: %v", vt, err)
				for _, g := range []sips.SIPHeader{h, s.Headers} {
					via(c, g.GetSIPVia(), v, "Via")
					user(c, g.GetSIPContact(), u, "Contact")
					user(c, g.GetSIPFrom(), u, "From")
					user(c, g.GetSIPTo(), u, "To")
				}
				via(c, s.Via, v, "Via field")
				user(c, s.Contact, u, "Contact field")
				user(c, s.From, u, "From field")
				user(c, s.To, u, "To field")
				g := sips.NewSIPHeader()
				g.SetSIPVia(s.Via)
				g.SetSIPContact(s.Contact)
				via(c, g.GetSIPVia(), v, "Via set")
				user(c, g.GetSIPContact(), u, "Contact set")
				c.State(a, b, port)
				c.Outcome(a, b, port)
			}))
			// a third From without parameters, and a bare Via
			kinds[0] = append(kinds[0], addr("From", "f", "", "n", "n.example", "", map[string]string{}, "<sip:n@n.example>"))
			kinds[4] = append(kinds[4], line{long: "Via", compact: "v", text: "SIP/2.0/TCP g", a: "TCP", b: "g", u: uriParts{args: map[string]string{}}})
			type setOp struct {
				name string
				do   func(h sips.SIPHeader, in *[5]*line, plain map[string]string, i int)
			}
			var sets []setOp
			for k := range kinds {
				for x := range kinds[k] {
					k, l := k, kinds[k][x]
					sets = append(sets, setOp{"typed " + l.text, func(h sips.SIPHeader, in *[5]*line, plain map[string]string, i int) {
						in[k] = &l
						switch k {
						case 0:
							h.SetSIPFrom(sips.NewSIPUser(l.text))
						case 1:
							h.SetSIPTo(sips.NewSIPUser(l.text))
						case 2:
							h.SetSIPContact(sips.NewSIPUser(l.text))
						case 3:
							h.SetSIPCseq(sips.NewSIPCseq(l.text))
						case 4:
							h.SetSIPVia(sips.NewSIPVia(l.text))
						}
					}})
				}
				for x := 0; x < 2; x++ {
					k, x := k, x
					sets = append(sets, setOp{"plain " + kinds[k][0].long, func(h sips.SIPHeader, in *[5]*line, plain map[string]string, i int) {
						l := kinds[k][i%2]
						in[k] = &l
						h.SetFirstHeader([]string{l.long, strings.ToUpper(l.compact)}[x], l.text)
					}})
				}
			}
			sets = append(sets, setOp{"call id", func(h sips.SIPHeader, in *[5]*line, plain map[string]string, i int) {
				h.SetCallID(fmt.Sprint("c", i))
				plain["call-id"] = fmt.Sprint("c", i)
			}}, setOp{"content length", func(h sips.SIPHeader, in *[5]*line, plain map[string]string, i int) {
				h.SetContentLength(i)
				plain["content-length"] = strconv.Itoa(i)
			}}, setOp{"expires", func(h sips.SIPHeader, in *[5]*line, plain map[string]string, i int) {
				h.SetFirstHeader("EXPIRES", fmt.Sprint(i))
				plain["expires"] = fmt.Sprint(i)
			}})
			// change alters everything a getter returned: it belongs to the caller
			change := func(h sips.SIPHeader) {
				for _, u := range []*sips.SIPUser{h.GetSIPFrom(), h.GetSIPTo(), h.GetSIPContact()} {
					if u != nil {
						u.Host, u.User = "changed", "changed"
						if u.Args != nil {
							u.Args.Set("changed", "1")
						}
					}
				}
				if q := h.GetSIPCseq(); q != nil {
					q.ID = "77"
				}
				if v := h.GetSIPVia(); v != nil {
					v.Host = "changed"
					if v.Args != nil {
						v.Args.Del("branch")
					}
				}
			}
			depth := pick(4, 5)
			ss = append(ss, &Scenario{Name: "setters", Note: fmt.Sprintf("every history of %d of %d operations: each typed setter with each value, plain setting under long and short names, other setters, copying into another header set; all typed getters compared after each, again after altering what they returned", depth, len(sets)+1), Run: func(c *Ctx) {
				h := sips.NewSIPHeader()
				var in [5]*line
				plain := map[string]string{}
				for i := 0; i < depth; i++ {
					k := c.Choose(len(sets) + 1)
					if k < len(sets) {
						sets[k].do(h, &in, plain, i)
						c.Logf("%s", sets[k].name)
					} else if in[0] != nil && in[3] != nil {
						g := sips.NewSIPHeader()
						g.CopyFrom(h, "f", "CSEQ")
						getters(c, g, [5]*line{in[0], nil, nil, in[3], nil}, "copy")
					} else {
						continue
					}
					c.Step(1)
					getters(c, h, in, "headers")
					if i == depth-1 {
						change(h)
						getters(c, h, in, "headers after altering returned values")
					}
					c.Check(h.GetCallID() == plain["call-id"] && h.GetExpires() == plain["expires"], "call id %q expires %q, want %v", h.GetCallID(), h.GetExpires(), plain)
					n, err := h.GetContentLength()
					if w, ok := plain["content-length"]; ok {
						c.Check(err == nil && strconv.Itoa(n) == w, "content length %d %v, want %s", n, err, w)
					} else {
						c.Check(err != nil, "content length %d although none was set", n)
					}
				}
				c.State(h.String())
				c.Outcome(h.String())
				c.Eval(1)
			}})
			changes := []struct {
				name string
				do   func(h sips.SIPHeader, name string, s *sips.SIP)
			}{
				{"continuation", func(h sips.SIPHeader, n string, s *sips.SIP) { s.ParseHeader([]byte(" ;more=1")) }},
				{"another line", func(h sips.SIPHeader, n string, s *sips.SIP) { s.ParseHeader([]byte(n + ": other")) }},
				{"set", func(h sips.SIPHeader, n string, s *sips.SIP) { h.SetFirstHeader(n, "other") }},
				{"value overwritten", func(h sips.SIPHeader, n string, s *sips.SIP) {
					for _, l := range h.GetAllHeaders() {
						for i := range l {
							l[i] = "other"
						}
					}
				}},
				{"value appended", func(h sips.SIPHeader, n string, s *sips.SIP) {
					for k, l := range h.GetAllHeaders() {
						h[k] = append(l, "other")
					}
				}},
				{"removed", func(h sips.SIPHeader, n string, s *sips.SIP) {
					for k := range h.GetAllHeaders() {
						delete(h, k)
					}
				}},
			}
			chNames := []string{"From", "t", "m", "CSEQ", "v", "call-id", "X-Own"}
			ss = append(ss, &Scenario{Name: "copies", Note: fmt.Sprintf("%d header names, long and compact, with 1..3 values, copied into an empty or filled set or out of a copy, then every pair of %d changes to either side: the other side stays", len(chNames), len(changes)), Run: func(c *Ctx) {
				name := chNames[c.Choose(len(chNames))]
				nv := 1 + c.Choose(3)
				src, dst := sips.NewSIP(), sips.NewSIP()
				for i := 0; i < nv; i++ {
					src.ParseHeader([]byte(fmt.Sprintf("%s: <sip:a@h%d>", name, i)))
				}
				if c.Bool() {
					dst.ParseHeader([]byte(name + ": old"))
					dst.ParseHeader([]byte(name + ": old2"))
				}
				twice := c.Bool()
				dst.Headers.CopyFrom(src.Headers, strings.ToUpper(name))
				if twice {
					d := sips.NewSIP()
					d.Headers.CopyFrom(dst.Headers, name)
					dst = d
				}
				side := c.Choose(2)
				a, b := src, dst
				if side == 1 {
					a, b = dst, src
					a.ParseHeader([]byte(name + ": last"))
				}
				show := func(s *sips.SIP) string { return fmt.Sprintf("%q", s.Headers.GetHeader(name)) }
				before := show(b)
				want := fmt.Sprintf("%q", []string{"<sip:a@h0>"})
				if side == 0 {
					c.Check(before == want, "copied header %s is %s, want %s", name, before, want)
				}
				for i := 0; i < 2; i++ {
					k := c.Choose(len(changes))
					c.Logf("%s on side %d", changes[k].name, side)
					changes[k].do(a.Headers, name, a)
					c.Check(show(b) == before, "after %s on the %s side, header %s of the other is %s, was %s", changes[k].name, []string{"source", "copy"}[side], name, show(b), before)
					c.Step(1)
				}
				c.Eval(1)
				c.State(show(a), show(b))
			}})
			// digest authorization
			keys := []string{"username", "realm", "nonce", "uri", "response", "algorithm", "opaque", "nc", "cnonce", "qop"}
			vals := []string{"Alice", "atlanta.com", "84a4cc6f3082121f32b42a2187831a9e", "sip:ss2.wcom.com;transport=tcp", "", "MD5", "a, b", "00000001", "x=y", "auth"}
			ss = append(ss, chunked("digest", "authorization headers with every subset of ten fields, quoted and unquoted values, three separators, blanks around the equals signs and behind the scheme, upper, lower and mixed case scheme, through a parsed message and directly", 1024, 16, func(c *Ctx, i int) {
				for mode := 0; mode < 9; mode++ {
					eq := []string{"=", "=", "=", " = ", "=\t", " ="}[mode*2/3]
					want := map[string]string{}
					var ps []string
					for k := range keys {
						if i>>uint(k)&1 == 0 {
							continue
						}
						v := vals[(k+mode)%len(vals)]
						want[keys[k]] = v
						if mode%2 == 1 && v != "" && !strings.ContainsAny(v, ", ;=") {
							ps = append(ps, keys[k]+eq+v)
						} else {
							ps = append(ps, keys[k]+eq+`"`+v+`"`)
						}
					}
					sep := []string{", ", ",", ",\r\n  "}[mode%3]
					text := []string{"Digest ", "digest ", "DIGEST ", "Digest\t", "diGest  \t "}[mode/2] + strings.Join(ps, sep)
					if len(ps) == 0 {
						text += `realm=""`
						want["realm"] = ""
					}
					s, err := parseSip(sipText("REGISTER sip:a SIP/2.0", [][2]string{{"Authorization", text}, {"Content-Length", "0"}}, nil))
					c.Check(err == nil, "%q: %v", text, err)
					got := s.Headers.GetAuthorization().Args
					c.Check(argsText(got) == argsText(want), "%q gives %s, want %s", text, argsText(got), argsText(want))
					if mode%3 != 2 {
						got = sips.NewSIPAuth(text).Args
						c.Check(argsText(got) == argsText(want), "%q gives %s directly, want %s", text, argsText(got), argsText(want))
						got.Del("realm")
						got.Set("nonce", "altered")
						got = sips.NewSIPAuth(text).Args
						c.Check(argsText(got) == argsText(want), "%q gives %s after altering an earlier result, want %s", text, argsText(got), argsText(want))
					}
					for _, bad := range []string{"Basic " + strings.Join(ps, sep), ""} {
						c.Check(len(sips.NewSIPAuth(bad).Args) == 0, "%q gives %s", bad, argsText(sips.NewSIPAuth(bad).Args))
					}
				}
				c.Step(9)
			}))
			return ss
		},
	})
}
