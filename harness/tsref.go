package main

// An independent reader of MPEG transport streams (ISO 13818-1), written
// without reference to the code under test.

import (
	"bytes"
	"fmt"

	"github.com/moggle-mog/goav/container/ts"
	"github.com/moggle-mog/goav/packet"
)

type tsPkt struct {
	pid, cc    int
	pusi       bool
	hasPayload bool
	hasPCR     bool
	rai        bool
	pcr        int64 // 33-bit base
	pcrExt     int
	afLen      int // -1: no adaptation field
	payload    []byte
}

func readTsPkt(b []byte) (p tsPkt, err error) {
	if len(b) != 188 {
		return p, fmt.Errorf("a packet of %d bytes", len(b))
	}
	if b[0] != 0x47 {
		return p, fmt.Errorf("no sync byte: %02x", b[0])
	}
	if b[1]&0x80 != 0 || b[3]&0xc0 != 0 {
		return p, fmt.Errorf("error or scrambling bits set: %s", hx(b[:4]))
	}
	p.pusi = b[1]&0x40 != 0
	p.pid = int(b[1]&0x1f)<<8 | int(b[2])
	p.cc = int(b[3] & 15)
	afc := b[3] >> 4 & 3
	p.afLen = -1
	i := 4
	if afc == 0 {
		return p, fmt.Errorf("reserved adaptation field control")
	}
	if afc&2 != 0 {
		l := int(b[4])
		if (afc == 2 && l != 183) || (afc == 3 && l > 182) {
			return p, fmt.Errorf("adaptation field of %d bytes with control %d", l, afc)
		}
		p.afLen = l
		af := b[5 : 5+l]
		i = 5 + l
		if l > 0 {
			f := af[0]
			p.rai = f&0x40 != 0
			af = af[1:]
			if f&0x2f != 0 {
				return p, fmt.Errorf("adaptation field flags %02x", f)
			}
			if f&0x10 != 0 {
				if len(af) < 6 {
					return p, fmt.Errorf("clock reference does not fit the adaptation field")
				}
				p.hasPCR = true
				p.pcr = int64(af[0])<<25 | int64(af[1])<<17 | int64(af[2])<<9 | int64(af[3])<<1 | int64(af[4])>>7
				p.pcrExt = int(af[4]&1)<<8 | int(af[5])
				if af[4]&0x7e != 0x7e {
					return p, fmt.Errorf("reserved clock reference bits are not set: %s", hx(af[:6]))
				}
				af = af[6:]
			}
			for _, x := range af {
				if x != 0xff {
					return p, fmt.Errorf("adaptation field padding contains %02x", x)
				}
			}
		}
	}
	if afc&1 != 0 {
		p.hasPayload = true
		p.payload = b[i:]
	}
	return p, nil
}

func readTs(b []byte) ([]tsPkt, error) {
	if len(b)%188 != 0 {
		return nil, fmt.Errorf("%d bytes are not whole packets", len(b))
	}
	var out []tsPkt
	for i := 0; i < len(b); i += 188 {
		p, err := readTsPkt(b[i : i+188])
		if err != nil {
			return nil, fmt.Errorf("packet %d: %v", i/188, err)
		}
		out = append(out, p)
	}
	return out, nil
}

type pesUnit struct {
	sid            int
	pts, dts       int64
	hasPTS, hasDTS bool
	length         int
	payload        []byte
}

// readStamp decodes a 33-bit stamp and checks prefix and marker bits.
func readStamp(b []byte, prefix byte) (int64, error) {
	if b[0]>>4 != prefix || b[0]&1 != 1 || b[2]&1 != 1 || b[4]&1 != 1 {
		return 0, fmt.Errorf("time stamp %s: wrong prefix or marker bits, want prefix %x", hx(b[:5]), prefix)
	}
	return int64(b[0]>>1&7)<<30 | int64(b[1])<<22 | int64(b[2]>>1)<<15 | int64(b[3])<<7 | int64(b[4]>>1), nil
}

func readPes(b []byte) (u pesUnit, err error) {
	if len(b) < 9 {
		return u, fmt.Errorf("a unit of %d bytes", len(b))
	}
	if b[0] != 0 || b[1] != 0 || b[2] != 1 {
		return u, fmt.Errorf("no unit start code: %s", hx(b[:9]))
	}
	u.sid = int(b[3])
	u.length = int(b[4])<<8 | int(b[5])
	if b[6]>>6 != 2 {
		return u, fmt.Errorf("marker bits of %s", hx(b[:9]))
	}
	if b[6]&0x30 != 0 || b[7]&0x3f != 0 {
		return u, fmt.Errorf("flags of %s", hx(b[:9]))
	}
	hl := int(b[8])
	if len(b) < 9+hl {
		return u, fmt.Errorf("header of %d bytes does not fit", hl)
	}
	h := b[9 : 9+hl]
	u.payload = b[9+hl:]
	switch b[7] >> 6 {
	case 1:
		return u, fmt.Errorf("forbidden stamp flags 01")
	case 2, 3:
		if len(h) < 5 {
			return u, fmt.Errorf("presentation stamp does not fit the header")
		}
		u.hasPTS = true
		if u.pts, err = readStamp(h, b[7]>>6); err != nil {
			return
		}
		h = h[5:]
		if b[7]>>6 == 3 {
			if len(h) < 5 {
				return u, fmt.Errorf("decode stamp does not fit the header")
			}
			u.hasDTS = true
			if u.dts, err = readStamp(h, 1); err != nil {
				return
			}
			h = h[5:]
		}
	}
	for _, x := range h {
		if x != 0xff {
			return u, fmt.Errorf("header padding contains %02x", x)
		}
	}
	if u.length == 0 && 3+hl+len(u.payload) <= 65535 {
		return u, fmt.Errorf("length 0 although %d bytes fit", 3+hl+len(u.payload))
	}
	if u.length != 0 && u.length != 3+hl+len(u.payload) {
		return u, fmt.Errorf("length %d for %d bytes", u.length, 3+hl+len(u.payload))
	}
	return u, nil
}

// tsUnit is what one muxed media packet must look like.
type tsUnit struct {
	video, key bool
	pts, dts   int64
	media      []byte
}

func mod33(x int64) int64 { return x & (1<<33 - 1) }

const smallKeyText = "a key frame that fits its first TS packet is padded with a second adaptation field inside the payload"

// checkUnit checks the packets written for one media packet. ccs: the running
// continuity counters per PID (nil: not judged here). It returns how many
// packets were written.
func checkUnit(c *Ctx, out []byte, u tsUnit, ccs map[int]int, what string) int {
	pk, err := readTs(out)
	c.Check(err == nil, "%s: %v\n%s", what, err, hx(out))
	c.Check(len(pk) > 0, "%s: nothing written", what)
	pid, sid := 0x101, 0xc0
	if u.video {
		pid, sid = 0x100, 0xe0
	}
	var data []byte
	for i, p := range pk {
		c.Check(p.pid == pid, "%s: packet %d on PID %x, want %x", what, i, p.pid, pid)
		c.Check(p.pusi == (i == 0), "%s: unit-start flag of packet %d is %v", what, i, p.pusi)
		c.Check(p.hasPayload && len(p.payload) > 0, "%s: packet %d carries no payload", what, i)
		c.Check(p.hasPCR == (i == 0 && u.video && u.key), "%s: clock reference in packet %d: %v", what, i, p.hasPCR)
		c.Check(p.rai == p.hasPCR, "%s: random access flag in packet %d: %v", what, i, p.rai)
		if p.hasPCR {
			c.Check(p.pcr == mod33(u.dts) && p.pcrExt == 0, "%s: clock reference %d+%d, decode time %d", what, p.pcr, p.pcrExt, mod33(u.dts))
		}
		if i > 0 && i < len(pk)-1 {
			c.Check(p.afLen < 0, "%s: padding in packet %d of %d", what, i, len(pk))
		}
		data = append(data, p.payload...)
		if ccs != nil {
			if last, ok := ccs[pid]; ok {
				c.Check(p.cc == (last+1)&15, "%s: continuity counter %d after %d on PID %x", what, p.cc, last, pid)
			}
			ccs[pid] = p.cc
		}
	}
	hl := 14
	if u.video && u.pts != u.dts {
		hl = 19
	}
	if total := hl + len(u.media); u.key && u.video && total <= 175 && !bytes.HasPrefix(data, []byte{0, 0, 1}) {
		l := 175 - total
		ok := len(pk) == 1 && pk[0].afLen == 7 && len(data) == 176 && data[0] == byte(l)
		for i := 1; ok && i <= l; i++ {
			ok = (i == 1 && data[i] == 0) || (i > 1 && data[i] == 0xff)
		}
		if ok {
			c.Known("small-keyframe-padding", "%s: %s", what, smallKeyText)
			data = data[1+l:]
		}
	}
	p, err := readPes(data)
	c.Check(err == nil, "%s: %v", what, err)
	c.Check(p.sid == sid, "%s: stream id %x", what, p.sid)
	c.Check(p.hasPTS && p.pts == mod33(u.pts), "%s: presentation time %d (present %v), want %d", what, p.pts, p.hasPTS, mod33(u.pts))
	switch {
	case !u.video || u.pts == u.dts:
		c.Check(!p.hasDTS, "%s: unexpected decode time %d", what, p.dts)
	case mod33(u.pts) == mod33(u.dts) && !p.hasDTS:
	default:
		c.Check(p.hasDTS && p.dts == mod33(u.dts), "%s: decode time %d (present %v), want %d", what, p.dts, p.hasDTS, mod33(u.dts))
	}
	c.Check(bytes.Equal(p.payload, u.media), "%s: payload of %d bytes recovered as %d bytes, first difference at %d", what, len(u.media), len(p.payload), firstDiff(p.payload, u.media))
	return len(pk)
}

func firstDiff(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

// crcRef is the MPEG-2 CRC-32, bit by bit.
func crcRef(b []byte) uint32 {
	r := uint32(0xffffffff)
	for _, x := range b {
		for k := 7; k >= 0; k-- {
			in := uint32(x) >> uint(k) & 1
			top := r >> 31
			r <<= 1
			if top^in == 1 {
				r ^= 0x04c11db7
			}
		}
	}
	return r
}

type section struct {
	pid, cc, table, ext, version, num, last int
	current                                 bool
	body                                    []byte
}

// readSection reads a packet holding exactly one long-form section.
func readSection(b []byte) (s section, err error) {
	p, err := readTsPkt(b)
	if err != nil {
		return s, err
	}
	s.pid, s.cc = p.pid, p.cc
	d := p.payload
	if !p.pusi || p.hasPCR || len(d) < 1 || d[0] != 0 {
		return s, fmt.Errorf("not a packet that starts with a section: %s", hx(b))
	}
	d = d[1:]
	if len(d) < 12 {
		return s, fmt.Errorf("no room for a section")
	}
	s.table = int(d[0])
	if d[1]&0x80 == 0 {
		return s, fmt.Errorf("section syntax flag not set")
	}
	l := int(d[1]&15)<<8 | int(d[2])
	if l > 1021 || l < 9 || 3+l > len(d) {
		return s, fmt.Errorf("section length %d", l)
	}
	sec, rest := d[:3+l], d[3+l:]
	for _, x := range rest {
		if x != 0xff {
			return s, fmt.Errorf("padding after the section contains %02x", x)
		}
	}
	if crcRef(sec) != 0 {
		return s, fmt.Errorf("checksum of section %s is wrong", hx(sec))
	}
	s.ext = int(d[3])<<8 | int(d[4])
	s.version, s.current = int(d[5]>>1&31), d[5]&1 == 1
	s.num, s.last = int(d[6]), int(d[7])
	if !s.current || s.num != 0 || s.last != 0 {
		return s, fmt.Errorf("section is not current or not the only one: %s", hx(sec))
	}
	s.body = sec[8 : len(sec)-4]
	return s, nil
}

type descr struct {
	tag  int
	data []byte
}

func readDescrs(b []byte) (out []descr, err error) {
	for len(b) > 0 {
		if len(b) < 2 || len(b) < 2+int(b[1]) {
			return nil, fmt.Errorf("descriptor runs past its loop: %s", hx(b))
		}
		out = append(out, descr{int(b[0]), b[2 : 2+int(b[1])]})
		b = b[2+int(b[1]):]
	}
	return out, nil
}

type stream struct{ typ, pid int }

// tables checks the three tables written for one request and the counters.
type tableModel struct {
	video, audio bool
	descr        bool
	prov, serv   string
}

func checkPMT(c *Ctx, b []byte, pid, program int, want []stream, ccs map[int]int) {
	s, err := readSection(b)
	c.Check(err == nil, "program map: %v", err)
	c.Check(s.pid == pid && s.table == 2 && s.ext == program, "program map of program %d on PID %x expected, got table %d of program %d on PID %x", program, pid, s.table, s.ext, s.pid)
	checkCC(c, s.pid, s.cc, ccs)
	d := s.body
	c.Check(len(d) >= 4, "program map too short")
	pcr := int(d[0]&31)<<8 | int(d[1])
	pl := int(d[2]&15)<<8 | int(d[3])
	c.Check(len(d) >= 4+pl, "program descriptors run past the section")
	_, err = readDescrs(d[4 : 4+pl])
	c.Check(err == nil, "program map: %v", err)
	d = d[4+pl:]
	var got []stream
	for len(d) > 0 {
		c.Check(len(d) >= 5, "program map: incomplete stream entry %s", hx(d))
		st := stream{int(d[0]), int(d[1]&31)<<8 | int(d[2])}
		el := int(d[3]&15)<<8 | int(d[4])
		c.Check(len(d) >= 5+el, "program map: stream descriptors run past the section")
		got = append(got, st)
		d = d[5+el:]
	}
	c.Check(sameStreams(got, want), "program map lists %x (type, PID), want %x", got, want)
	video := false
	for _, s := range want {
		video = video || s.typ == 0x1b
	}
	switch {
	case len(want) == 0:
	case video && pcr == 0x101 && sameStreams(want, []stream{{0x1b, 0x100}, {0x0f, 0x101}}):
		c.Known("pcr-pid-audio", "with video and audio announced the program map names the audio PID 101 as clock reference PID, the clock references are on PID 100")
	case video:
		c.Check(pcr == 0x100, "clock reference PID %x, the clock references are on PID 100", pcr)
	case pcr == 0x101:
		c.Known("audio-only-no-pcr", "an audio-only program names PID 101 as clock reference PID but audio packets carry none")
	default:
		c.Fail("clock reference PID %x of an audio-only program", pcr)
	}
}

func sameStreams(a, b []stream) bool {
	if len(a) != len(b) {
		return false
	}
	m := map[stream]int{}
	for _, x := range a {
		m[x]++
	}
	for _, x := range b {
		m[x]--
		if m[x] < 0 {
			return false
		}
	}
	return true
}

func checkCC(c *Ctx, pid, cc int, ccs map[int]int) {
	if ccs == nil {
		return
	}
	if last, ok := ccs[pid]; ok {
		c.Check(cc == (last+1)&15, "continuity counter %d after %d on PID %x", cc, last, pid)
	}
	ccs[pid] = cc
}

// check judges the bytes one request for the tables wrote.
func (m *tableModel) check(c *Ctx, out []byte, ccs map[int]int) {
	c.Check(len(out) == 3*188, "%d bytes written for three tables", len(out))
	var sdt, pat, pmt []byte
	for i := 0; i < 3; i++ {
		b := out[i*188 : (i+1)*188]
		s, err := readSection(b)
		c.Check(err == nil, "table %d: %v", i, err)
		switch s.table {
		case 0x42:
			c.Check(sdt == nil, "two service description tables")
			sdt = b
			c.Check(s.pid == 0x11, "service description on PID %x", s.pid)
			checkCC(c, s.pid, s.cc, ccs)
			d := s.body // original network id, reserved, services
			c.Check(len(d) >= 8, "service description too short")
			d = d[3:]
			sl := int(d[3]&15)<<8 | int(d[4])
			c.Check(int(d[0])<<8|int(d[1]) == 1, "service description of service %d, the program is 1", int(d[0])<<8|int(d[1]))
			c.Check(len(d) == 5+sl, "descriptor loop of %d bytes in %d", sl, len(d)-5)
			ds, err := readDescrs(d[5:])
			c.Check(err == nil, "service description: %v", err)
			if !m.descr {
				c.Check(len(ds) == 0, "descriptors %v although nothing was saved", ds)
			} else {
				want := cat([]byte{1, byte(len(m.prov))}, []byte(m.prov), []byte{byte(len(m.serv))}, []byte(m.serv))
				c.Check(len(ds) == 1 && ds[0].tag == 0x48 && bytes.Equal(ds[0].data, want), "service description %s, want provider %s service %s", hx(d[5:]), qs(m.prov), qs(m.serv))
			}
		case 0:
			c.Check(pat == nil, "two program association tables")
			pat = b
			c.Check(s.pid == 0, "program association on PID %x", s.pid)
			checkCC(c, s.pid, s.cc, ccs)
			c.Check(len(s.body) == 4 && s.body[0] == 0 && s.body[1] == 1 && (int(s.body[2]&31)<<8|int(s.body[3])) == 0x1001, "program association lists %s, want program 1 on PID 1001", hx(s.body))
		case 2:
			c.Check(pmt == nil, "two program map tables")
			pmt = b
			var want []stream
			if m.video {
				want = append(want, stream{0x1b, 0x100})
			}
			if m.audio {
				want = append(want, stream{0x0f, 0x101})
			}
			checkPMT(c, b, 0x1001, 1, want, ccs)
		default:
			c.Fail("unexpected table %x", s.table)
		}
	}
}

// cadence is the audio clock model.
type cadence struct {
	started bool
	last    int64 // latest output time
	frame   int64 // frame length then
}

// step judges one audio packet: src in 90 kHz ticks, rate in Hz, got the
// output time modulo 2^33. It returns the unreduced output time.
func (k *cadence) step(c *Ctx, src int64, rate int, got int64, what string) int64 {
	fl := int64(90000) * 1024 / int64(rate)
	next := []int64{k.last + k.frame}
	if k.started && fl != k.frame {
		// the packet after a rate change may follow by either frame length
		next = append(next, k.last+fl)
	}
	free := !k.started // the first packet may open the cadence at its own time
	out, ok := int64(0), false
	for _, n := range next {
		if d := n - src; d < -900 || d > 900 {
			free = true
		} else if mod33(n) == got {
			out, ok = n, true
		}
	}
	if !ok && free && mod33(src) == got {
		out, ok = src, true
	}
	if !ok {
		c.Fail("%s: source time %d, cadence continues at %v, output time %d", what, src, next, got)
	}
	k.started, k.last, k.frame = true, out, fl
	return out
}

func aacHeaderBytes(idx int) []byte {
	return []byte{0xaf, 0, byte(2<<3 | idx>>1), byte(idx&1<<7 | 2<<3)}
}

func newTsMixer(w *bytes.Buffer) *ts.Mixer { return ts.NewMixer(w) }

func mustDemux(c *Ctx, pt int, data []byte) *packet.Packet {
	p, err := demux(c, pt, data)
	c.Check(err == nil, "demuxing %s: %v", hx(data), err)
	return p
}
