package main

import (
	"bytes"
	"fmt"
	"reflect"
	"sync/atomic"
	"time"

	"github.com/moggle-mog/goav/gop"
	"github.com/moggle-mog/goav/packet"
)

// pktSink collects packets; fails at packet number failAt (0-based, -1 never),
// once or from then on.
type pktSink struct {
	got    []*packet.Packet
	calls  int
	failAt int
	once   bool
}

func (s *pktSink) Write(p *packet.Packet) error {
	k := s.calls
	s.calls++
	if s.failAt >= 0 && (k == s.failAt || (k > s.failAt && !s.once)) {
		return errInjected
	}
	s.got = append(s.got, p)
	return nil
}

// turnSink collects packets and gives up its turn before each of them.
type turnSink struct {
	pktSink
	pause func()
}

func (s *turnSink) Write(p *packet.Packet) error {
	s.pause()
	return s.pktSink.Write(p)
}

var replaysLock int32 // replays were seen to exclude one another

// overlapping replays s to n consumers at once, one running at a time, in
// every order of their packets; consumer failing goes away at packet at. It
// stands back from implementations that admit one replay at a time.
func overlapping(c *Ctx, s sender, n, failing, at int, want []*packet.Packet, what string) {
	if atomic.LoadInt32(&replaysLock) != 0 {
		c.giveUp = true
		return
	}
	const ready, waiting, gone = 0, 1, 2
	type job struct {
		w     *turnSink
		wake  chan struct{}
		err   error
		state int
	}
	back := make(chan int, 2*n)
	done := make([]bool, n)
	js := make([]*job, n)
	for i := range js {
		i := i
		j := &job{w: &turnSink{pktSink: pktSink{failAt: -1}}, wake: make(chan struct{})}
		if i == failing {
			j.w.failAt = at
		}
		js[i] = j
		j.w.pause = func() {
			back <- i
			<-j.wake
		}
		go func() {
			<-j.wake
			defer func() {
				if r := recover(); r != nil {
					j.err = fmt.Errorf("panic: %v", r)
				}
				done[i] = true
				back <- i
			}()
			j.err = s.SendTo(j.w)
		}()
	}
	order, held := "", false
	defer func() { c.giveUp = atomic.LoadInt32(&replaysLock) != 0 }()
	for {
		var can []int
		left := 0
		for i, j := range js {
			if j.state == ready {
				can = append(can, i)
			}
			if j.state != gone {
				left++
			}
		}
		if left == 0 {
			break
		}
		cur := -1
		if len(can) > 0 {
			k := 0
			if !held {
				k = c.Choose(len(can))
			}
			cur = can[k]
			order += fmt.Sprint(" ", cur)
			js[cur].state = waiting
			js[cur].wake <- struct{}{}
		}
		for cur < 0 || js[cur].state == waiting {
			x := -1
			if len(can) == 0 {
				x = <-back
			} else {
				select {
				case x = <-back:
				case <-time.After(10 * time.Second):
					held = true // by another one
					atomic.StoreInt32(&replaysLock, 1)
				}
			}
			if x < 0 {
				break
			}
			js[x].state = ready
			if done[x] {
				js[x].state = gone
			}
			cur = x
		}
	}
	for i, j := range js {
		w := want
		if i == failing && at < len(want) {
			c.Check(j.err != nil, "%s: consumer %d of %d fails at packet %d, order%s: no error", what, i, n, at, order)
			w = want[:at]
		} else {
			c.Check(j.err == nil, "%s: consumer %d of %d, order%s: %v", what, i, n, order, j.err)
		}
		c.Check(samePkts(j.w.got, w), "%s: consumer %d of %d, packets taken in order%s: replay delivers%s, want%s", what, i, n, order, pktNames(j.w.got), pktNames(w))
	}
	c.Outcome(order)
}

type sender interface{ SendTo(packet.Writer) error }

func replay(c *Ctx, s sender) []*packet.Packet {
	w := &pktSink{failAt: -1}
	err := s.SendTo(w)
	c.Check(err == nil, "replay failed: %v", err)
	return w.got
}

func pktNames(ps []*packet.Packet) string {
	var b bytes.Buffer
	for i, p := range ps {
		if i == 40 {
			fmt.Fprintf(&b, " ... (%d)", len(ps))
			break
		}
		fmt.Fprintf(&b, " #%d", p.TimeStamp)
	}
	return b.String()
}

// gopModel is the list of groups begun, bounded to n groups of 1024 packets.
type gopModel struct {
	n      int
	groups [][]*packet.Packet
}

// write returns whether the frame must be accepted.
func (m *gopModel) write(p *packet.Packet, key bool) bool {
	if m.n == 0 {
		return true
	}
	if key {
		m.groups = append(m.groups, []*packet.Packet{p})
		if len(m.groups) > m.n {
			m.groups = m.groups[1:]
		}
		return true
	}
	if len(m.groups) == 0 {
		return false
	}
	g := &m.groups[len(m.groups)-1]
	if len(*g) >= 1024 {
		return false
	}
	*g = append(*g, p)
	return true
}

func (m *gopModel) flat() (out []*packet.Packet) {
	for _, g := range m.groups {
		out = append(out, g...)
	}
	return
}

func (m *gopModel) sizes() string {
	s := fmt.Sprint(m.n)
	for _, g := range m.groups {
		s += fmt.Sprint(",", len(g))
	}
	return s
}

func samePkts(a, b []*packet.Packet) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && !alikePkts(a[i], b[i]) {
			return false
		}
	}
	return true
}

// alikePkts reports whether two packets say the same.
func alikePkts(a, b *packet.Packet) bool {
	return a != nil && b != nil && a.Type == b.Type && a.TimeStamp == b.TimeStamp && bytes.Equal(a.Data, b.Data) && bytes.Equal(a.Media, b.Media) && reflect.DeepEqual(a, b)
}

func checkReplay(c *Ctx, s sender, want []*packet.Packet, what string) {
	got := replay(c, s)
	c.Check(samePkts(got, want), "%s: replay delivers%s, want%s", what, pktNames(got), pktNames(want))
}

// streamTime is the time of the i-th packet: evenly spaced, stepping back
// and forth across the 32-bit wrap, or always the same.
func streamTime(pattern, i int) uint32 {
	if pattern == 0 {
		return uint32(i+1) * 40
	}
	if pattern == 2 {
		return 40
	}
	return uint32((i^1)*40 - 50)
}

// fullModel is the reference for the whole stream cache.
type fullModel struct {
	g                gopModel
	meta, vhdr, ahdr *packet.Packet
}

func (m *fullModel) flat() (out []*packet.Packet) {
	for _, p := range []*packet.Packet{m.meta, m.vhdr, m.ahdr} {
		if p != nil {
			out = append(out, p)
		}
	}
	return append(out, m.g.flat()...)
}

func init() {
	register(&Prop{
		ID: "G01", Level: "model_checking",
		Rule: "Every history of key and other frames within the bounds is written to the real cache next to a list-of-groups model, replaying after every step; packets are compared by identity. A state is the vector of cached group sizes.",
		Build: func(th bool) []*Scenario {
			var ss []*Scenario
			depth := pick(13, 17)
			ss = append(ss, &Scenario{Name: "histories", Note: fmt.Sprintf("caches for 0..5 groups x every history of %d key and other frames, replayed after every frame; frames all different with rising or erratic times, or all alike", depth), Run: func(c *Ctx) {
				n := c.Choose(6)
				kind := c.Choose(3)
				g := gop.NewCache(n).Gop
				m := &gopModel{n: n}
				for i := 0; i < depth; i++ {
					key := c.Bool()
					p := vary(&packet.Packet{Type: packet.PktVideo, TimeStamp: uint32(i), Data: []byte{byte(i)}}, i)
					switch kind {
					case 1: // times all over the range
						p.TimeStamp = uint32(i+1) * 0x9e3779b1
					case 2: // all alike
						p.TimeStamp, p.Data = 7, []byte{0x27, 1, 0, 0, 0, 0, 0, 0, 2, 0x41, 7}
					}
					err := g.Write(p, key)
					want := m.write(p, key)
					c.Check((err == nil) == want, "frame %d (key %v) with groups %s: error %v, must be accepted %v", i, key, m.sizes(), err, want)
					checkReplay(c, g, m.flat(), fmt.Sprintf("frame %d (key %v), cache of %d", i, key, n))
					c.Step(1)
					c.State(m.sizes())
				}
				c.Eval(depth)
				c.Outcome(pktNames(m.flat()))
			}})
			ss = append(ss, &Scenario{Name: "through-cache", Note: fmt.Sprintf("caches for -1..3 groups x every history of %d packets: key, inter, audio, sequence header, other frame type, end of sequence", pick(6, 8)), Run: func(c *Ctx) {
				n := c.Choose(5) - 1
				g := gop.NewCache(n)
				m := &gopModel{n: max(n, 0)}
				d := pick(6, 8)
				for i := 0; i < d; i++ {
					k := c.Choose(6)
					var p *packet.Packet
					switch k {
					case 0, 1:
						p = mustDemux(c, packet.PktVideo, vidData(k == 0, false, i, nal(0x65, byte(i))))
					case 2:
						p = mustDemux(c, packet.PktAudio, []byte{0xaf, 1, byte(i)})
					case 3:
						p = mustDemux(c, packet.PktVideo, vidData(true, true, 0, []byte{byte(i)}))
					case 4:
						p = mustDemux(c, packet.PktVideo, []byte{0x37, 1, 0, 0, 0, byte(i)})
					case 5:
						p = mustDemux(c, packet.PktVideo, cat([]byte{0x17, 2, 0, 0, 0}, repBytes(i%2, i)))
					}
					p.TimeStamp = uint32(i)
					err := g.Write(p)
					ok := true
					if k < 2 {
						ok = m.write(p, k == 0)
					}
					c.Check((err == nil) == ok, "packet %d kind %d: error %v, must be accepted %v", i, k, err, ok)
					checkReplay(c, g.Gop, m.flat(), fmt.Sprintf("packet %d kind %d", i, k))
					c.Step(1)
					c.State(m.sizes())
				}
				c.Eval(d)
				c.Outcome(pktNames(m.flat()))
			}})
			ss = append(ss, chunked("rings", "caches for 1..40 groups, 3 times around the ring, every group length pattern of period 1..4, replayed at every group boundary", 40*4, 4, func(c *Ctx, i int) {
				n, per := i/4+1, i%4+1
				g := gop.NewCache(n).Gop
				m := &gopModel{n: n}
				x := uint32(0)
				for k := 0; k < 3*n+2; k++ {
					for f := 0; f <= k%per*3; f++ {
						p := vary(&packet.Packet{TimeStamp: x * uint32(1+i%2*0x9e3779b0)}, int(x))
						x++
						c.Check(g.Write(p, f == 0) == nil, "frame refused")
						m.write(p, f == 0)
					}
					checkReplay(c, g, m.flat(), fmt.Sprintf("group %d in a cache of %d", k, n))
				}
				c.State(m.sizes())
				c.Outcome(i)
			}))
			big := []int{63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1024, 1025}
			ss = append(ss, chunked("big-rings", fmt.Sprintf("caches for %v groups, two and a bit times around the ring, groups of 1 and 2 frames, replayed near every multiple of 64 groups and every full ring", big), len(big), 1, func(c *Ctx, i int) {
				n := big[i]
				g := gop.NewCache(n).Gop
				m := &gopModel{n: n}
				x := uint32(0)
				for k := 0; k < 2*n+70; k++ {
					for f := 0; f <= k%2; f++ {
						p := vary(&packet.Packet{TimeStamp: x * uint32(1+i%2*0x9e3779b0)}, int(x))
						x++
						c.Check(g.Write(p, f == 0) == nil, "frame refused")
						m.write(p, f == 0)
					}
					if r := k % 64; r < 2 || r == 63 || k%n < 2 || k%n == n-1 {
						checkReplay(c, g, m.flat(), fmt.Sprintf("group %d in a cache of %d", k, n))
					}
				}
				c.State(n)
				c.Outcome(i)
			}))
			ss = append(ss, chunked("many-groups", fmt.Sprintf("caches for 1..8 groups: %d groups of 1, 2 or 3 frames in a row, replayed after every group", pick(20000, 200000)), 8*3, 1, func(c *Ctx, i int) {
				n, l := i%8+1, i/8+1
				g := gop.NewCache(n).Gop
				m := &gopModel{n: n}
				x := uint32(0)
				for k := 0; k < pick(20000, 200000); k++ {
					for f := 0; f < l; f++ {
						p := &packet.Packet{TimeStamp: x}
						x++
						c.Check(g.Write(p, f == 0) == nil, "frame %d of group %d refused", f, k)
						m.write(p, f == 0)
					}
					checkReplay(c, g, m.flat(), fmt.Sprintf("group %d in a cache of %d", k, n))
				}
				c.State(n, l)
				c.Outcome(i)
			}))
			ss = append(ss, &Scenario{Name: "interrupted-replays", Note: fmt.Sprintf("caches for 1..3 groups x every history of %d frames and replays that fail at packet 0, 1 or 2: the cache afterwards is unchanged", pick(6, 8)), Run: func(c *Ctx) {
				n := 1 + c.Choose(3)
				g := gop.NewCache(n).Gop
				m := &gopModel{n: n}
				d := pick(6, 8)
				for i := 0; i < d; i++ {
					k := c.Choose(5)
					if k < 2 {
						p := vary(&packet.Packet{TimeStamp: uint32(i)}, i)
						err := g.Write(p, k == 0)
						want := m.write(p, k == 0)
						c.Check((err == nil) == want, "frame %d: error %v, must be accepted %v", i, err, want)
					} else {
						w := &pktSink{failAt: k - 2}
						err := g.SendTo(w)
						all := m.flat()
						c.Check((err != nil) == (k-2 < len(all)), "replay of %d packets failing at %d: error %v", len(all), k-2, err)
						c.Check(samePkts(w.got, all[:min(k-2, len(all))]), "interrupted replay delivers%s of%s", pktNames(w.got), pktNames(all))
					}
					checkReplay(c, g, m.flat(), fmt.Sprintf("after step %d", i))
					c.Step(1)
					c.State(m.sizes())
				}
				c.Eval(d)
				c.Outcome(pktNames(m.flat()))
			}})
			return ss
		},
	})

	register(&Prop{
		ID: "G02", Level: "model_checking",
		Rule:        "Every history of stream packets within the bounds is written to the real stream cache next to a model; after every step the replay is compared with the model packet by packet, by identity and content. A state is which headers are held and the group sizes.",
		Assumptions: []string{"Packet headers come from the FLV demuxer or are of an application's own type; apart from one other sequence header video is AVC"},
		Build: func(th bool) []*Scenario {
			type op struct {
				name string
				pt   int
				data []byte
			}
			ops := []op{
				{"metadata", packet.PktMetadata, []byte{2, 0, 10}}, {"video header", packet.PktVideo, vidData(true, true, 0, []byte{1, 2, 3})}, {"audio header", packet.PktAudio, []byte{0xaf, 0, 0x12, 0x10}},
				{"key frame", packet.PktVideo, vidData(true, false, 1, nal(0x65, 1))}, {"inter frame", packet.PktVideo, vidData(false, false, 1, nal(0x41, 1))}, {"AAC frame", packet.PktAudio, []byte{0xaf, 1, 9}},
				{"disposable frame", packet.PktVideo, []byte{0x37, 1, 0, 0, 0, 1}}, {"generated key frame", packet.PktVideo, []byte{0x47, 1, 0, 0, 0, 1}}, {"info frame", packet.PktVideo, []byte{0x57, 0, 0, 0, 0, 1}}, {"MP3 frame", packet.PktAudio, []byte{0x2f, 0, 0xfb, 0x90}},
				{"unknown type", 7, []byte{1}},
				{"empty metadata", packet.PktMetadata, []byte{}},
				{"video header of another codec", packet.PktVideo, []byte{0x1c, 0, 0, 0, 0, 1, 2}},
				{"end of sequence", packet.PktVideo, []byte{0x17, 2, 0, 0, 0}},
			}
			// the same kinds without anything after the codec's own header
			bare := map[int][]byte{1: {0x17, 0, 0, 0, 0}, 2: {0xaf, 0}, 3: {0x17, 1, 0, 0, 0}, 4: {0x27, 1, 0, 0, 0}, 5: {0xaf, 1}}
			run := func(c *Ctx, n, depth int, choose func(i int) int) {
				pattern := c.Choose(3)
				g := gop.NewCache(n)
				m := &fullModel{g: gopModel{n: n}}
				type saved struct {
					p    *packet.Packet
					data []byte
				}
				var kept []saved
				for i := 0; i < depth; i++ {
					k := choose(i)
					o := ops[k]
					if d := bare[k]; d != nil && (i+n)%3 == 1 {
						o.data = d
					}
					p := pkt(o.pt, append([]byte{}, o.data...))
					if o.pt != 7 {
						p = mustDemux(c, o.pt, o.data)
					}
					p.TimeStamp = streamTime(pattern, i)
					vary(p, i)
					kept = append(kept, saved{p, o.data})
					err := error(nil)
					switch {
					case (i+k)%2 == 0 && o.pt == packet.PktVideo:
						err = g.WriteVideo(p)
					case (i+k)%2 == 0 && o.pt == packet.PktAudio:
						err = g.WriteAudio(p)
					default:
						err = g.Write(p)
					}
					ok := true
					switch k {
					case 0, 11:
						m.meta = p
					case 1, 12:
						m.vhdr = p
					case 2:
						m.ahdr = p
					case 3, 4:
						ok = m.g.write(p, k == 3)
					}
					if o.pt != 7 {
						c.Check((err == nil) == ok, "%s: error %v, must be accepted %v", o.name, err, ok)
					}
					for r := 0; r < 2; r++ {
						checkReplay(c, g, m.flat(), fmt.Sprintf("step %d %s, replay %d", i, o.name, r))
						if r == 0 {
							// a consumer that goes away in between
							at := i % (len(m.flat()) + 1)
							w := &pktSink{failAt: at}
							err := g.SendTo(w)
							c.Check((err != nil) == (at < len(m.flat())), "step %d: replay of %d packets failing at packet %d: error %v", i, len(m.flat()), at, err)
							c.Check(samePkts(w.got, m.flat()[:at]), "step %d: replay failing at packet %d delivers%s of%s", i, at, pktNames(w.got), pktNames(m.flat()))
						}
					}
					c.Logf("%s -> replay%s", o.name, pktNames(m.flat()))
					c.Step(1)
					c.State(m.meta != nil, m.vhdr != nil, m.ahdr != nil, m.g.sizes())
				}
				for i, s := range kept {
					c.Check(bytes.Equal(s.p.Data, s.data) && s.p.TimeStamp == streamTime(pattern, i), "packet %d was modified by the cache", i)
				}
				c.Eval(depth)
				c.Outcome(pktNames(m.flat()), n)
			}
			d := pick(5, 6)
			return []*Scenario{
				{Name: "histories", Note: fmt.Sprintf("caches for 0..2 groups x every history of %d of %d packet kinds with increasing, irregular and equal times, at some steps without contents, replayed twice after every packet, with a replay that fails in between", d, len(ops)), Run: func(c *Ctx) {
					n := c.Choose(3)
					run(c, n, d, func(int) int { return c.Choose(len(ops)) })
				}},
				{Name: "deeper", Note: fmt.Sprintf("caches for 1..3 groups x every history of %d of metadata, both headers, key and inter frames", pick(7, 9)), Run: func(c *Ctx) {
					n := 1 + c.Choose(3)
					run(c, n, pick(7, 9), func(int) int { return c.Choose(5) })
				}},
				{Name: "overlapping", Note: "caches for 0..3 groups with any of metadata and headers and 0..4 groups of 1..2 frames x two or three consumers replayed to at once x one of them going away or none: every order in which they take their packets", Run: func(c *Ctx) {
					n := c.Choose(4)
					mask := c.Choose(4)
					sizes := [][]int{{}, {1}, {2}, {1, 1}, {2, 1}, {1, 2, 1}, {1, 1, 1, 1}, {1, 2, 1, 2, 1}}[c.Choose(8)]
					g := gop.NewCache(n)
					m := &fullModel{g: gopModel{n: n}}
					x := uint32(0)
					put := func(k int) {
						p := mustDemux(c, ops[k].pt, append([]byte{}, ops[k].data...))
						p.TimeStamp = x * 40
						x++
						c.Check(g.Write(p) == nil, "%s refused", ops[k].name)
						switch k {
						case 0:
							m.meta = p
						case 1:
							m.vhdr = p
						case 2:
							m.ahdr = p
						default:
							m.g.write(p, k == 3)
						}
					}
					if mask > 0 {
						put(mask - 1)
						put(mask % 3)
					}
					for _, l := range sizes {
						for f := 0; f < l; f++ {
							put(3 + min(f, 1))
						}
					}
					want := m.flat()
					k := 2
					if len(want) <= pick(2, 3) && c.Bool() {
						k = 3
					}
					failing := c.Choose(2) - 1
					at := 0
					if failing >= 0 {
						at = c.Choose(len(want) + 1)
					}
					overlapping(c, g, k, failing, at, want, fmt.Sprintf("cache of %d groups", n))
					checkReplay(c, g, want, "afterwards")
					c.Step(k * len(want))
					c.State(n, mask, m.g.sizes(), k)
				}},
				chunked("header-bytes", "every first byte x second bytes 0, 1, 2 of audio and AVC video packets: what is kept as header, what is grouped", 256*3*2, 16, func(c *Ctx, i int) {
					b0, b1, pt := byte(i/6), byte(i/2%3), i%2
					data := []byte{b0, b1, 0, 0, 0, 9, 9}
					p := pkt(packet.PktVideo, data)
					if pt == 1 {
						p.Type = packet.PktAudio
					}
					q, err := demux(c, p.Type, data)
					if err != nil || (pt == 0 && (b0&15 != 7 || b1 == 2)) {
						return
					}
					g := gop.NewCache(2)
					k := mustDemux(c, packet.PktVideo, vidData(true, false, 0, nal(0x65, 1)))
					c.Check(g.Write(k) == nil, "key frame refused")
					c.Check(g.Write(q) == nil, "packet %s refused", hx(data))
					want := []*packet.Packet{k}
					switch {
					case pt == 1 && b0>>4 == 10 && b1 == 0:
						want = []*packet.Packet{q, k}
					case pt == 1:
					case b0>>4 == 1 && b1 == 0:
						want = []*packet.Packet{q, k}
					case b0>>4 == 1 || (b0>>4 == 2):
						want = []*packet.Packet{k, q}
					}
					checkReplay(c, g, want, "packet "+hx(data))
				}),
				chunked("sizes", "metadata, video header, audio header, key frame and inter frame of every length up to 300 and around every power of two up to 2^22, in one cache, replacing small ones", 301+42, 8, func(c *Ctx, i int) {
					n := i
					if i > 300 {
						n = 1<<uint(9+(i-301)/3) + (i-301)%3 - 1
					}
					g := gop.NewCache(2)
					body := repBytes(n, 1)
					var heads, frames []*packet.Packet
					for r := 0; r < 2; r++ {
						heads = nil
						for k, b := range [][]byte{{}, {0x17, 0, 0, 0, 0}, {0xaf, 0}, {0x17, 1, 0, 0, 0}, {0x27, 1, 0, 0, 0}} {
							d := cat(b, []byte{byte(k)})
							if r == 1 {
								d = cat(b, body)
							}
							p := mustDemux(c, []int{packet.PktMetadata, packet.PktVideo, packet.PktAudio, packet.PktVideo, packet.PktVideo}[k], d)
							c.Check(g.Write(p) == nil, "packet %d of %d bytes refused", k, len(d))
							if k < 3 {
								heads = append(heads, p)
							} else {
								frames = append(frames, p)
							}
						}
					}
					checkReplay(c, g, append(heads, frames...), fmt.Sprintf("packets of %d bytes", n))
					c.Step(10)
					c.Outcome(n)
				}),
			}
		},
	})

	register(&Prop{
		ID: "G03", Level: "model_checking",
		Rule: "Every history of key frames and runs of frames around the 1024-packet limit is written to the real cache next to the model; every acceptance, refusal and replay is compared. A state is the vector of cached group sizes.",
		Build: func(th bool) []*Scenario {
			runs := []int{1, 2, 1022, 1023, 1024, 1025, 2060}
			d := pick(4, 5)
			step := func(c *Ctx, w func(p *packet.Packet, key bool) error, m *gopModel, x *uint32, same, key bool, mk func(key bool) *packet.Packet) {
				p := mk(key)
				p.TimeStamp = *x
				if !same {
					*x++
				}
				err := w(p, key)
				before := m.sizes()
				want := m.write(p, key)
				c.Check((err == nil) == want, "frame %d (key %v) with group sizes %s: error %v, must be accepted %v", *x, key, before, err, want)
				c.Step(1)
			}
			return []*Scenario{
				{Name: "histories", Note: fmt.Sprintf("caches for 0..3 groups x every history of %d of: key frame, or runs of %v frames, with increasing or equal times; replayed after every element", d, runs), Run: func(c *Ctx) {
					n := c.Choose(4)
					same := c.Bool()
					g := gop.NewCache(n).Gop
					m := &gopModel{n: n}
					var x uint32
					for i := 0; i < d; i++ {
						k := c.Choose(len(runs) + 1)
						cnt := 1
						if k > 0 {
							cnt = runs[k-1]
						}
						for f := 0; f < cnt; f++ {
							step(c, g.Write, m, &x, same, k == 0, func(bool) *packet.Packet { return vary(&packet.Packet{}, int(x)) })
						}
						c.Logf("%d frames key %v -> %s", cnt, k == 0, m.sizes())
						checkReplay(c, g, m.flat(), "after "+m.sizes())
						c.State(m.sizes())
					}
					c.Eval(d)
					c.Outcome(m.sizes())
				}},
				chunked("every-length", "group lengths 1000..1050 and 2040..2060 in caches of 1..4 groups, through the stream cache, followed by a fresh group of 1024", 71*4, 8, func(c *Ctx, i int) {
					l := 1000 + i/4
					if l > 1050 {
						l += 2040 - 1051
					}
					n := i%4 + 1
					g := gop.NewCache(n)
					m := &gopModel{n: n}
					var x uint32
					mk := func(key bool) *packet.Packet {
						return mustDemux(c, packet.PktVideo, vidData(key, false, 0, nal(0x41, 1)))
					}
					w := func(p *packet.Packet, key bool) error { return g.Write(p) }
					for f := 0; f < 3; f++ {
						step(c, w, m, &x, i&4 == 4, f%2 == 0, mk)
					}
					for f := 0; f < l; f++ {
						step(c, w, m, &x, i&4 == 4, f == 0, mk)
					}
					checkReplay(c, g, m.flat(), "overfull "+m.sizes())
					for f := 0; f < 1030; f++ {
						step(c, w, m, &x, i&4 == 4, f == 0, mk)
					}
					checkReplay(c, g, m.flat(), "fresh "+m.sizes())
					c.State(m.sizes())
					c.Outcome(l, n)
				}),
				chunked("full-groups", fmt.Sprintf("caches for 1..3 groups: %d groups in a row of 1023, 1024 or 1025 frames each, replayed after every one; after none, one or all of them as many groups of one frame", pick(40, 400)), 27, 1, func(c *Ctx, i int) {
					n := i%3 + 1
					l := 1023 + i/3%3
					g := gop.NewCache(n).Gop
					m := &gopModel{n: n}
					var x uint32
					for k := 0; k < pick(40, 400); k++ {
						for f := 0; f < l; f++ {
							step(c, g.Write, m, &x, false, f == 0, func(bool) *packet.Packet { return &packet.Packet{} })
						}
						checkReplay(c, g, m.flat(), fmt.Sprintf("after %d groups of %d frames: %s", k+1, l, m.sizes()))
						if i/9 == 2 || (i/9 == 1 && k == 20) {
							step(c, g.Write, m, &x, false, true, func(bool) *packet.Packet { return &packet.Packet{} })
						}
					}
					c.State(m.sizes(), n)
					c.Outcome(i)
				}),
			}
		},
	})
}
