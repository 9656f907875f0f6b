package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"runtime"
	"strings"

	"github.com/moggle-mog/goav/amf"
)

type amfMsg struct {
	amf3 bool
	data []byte
}

func newDec(amf3 bool) amf.Decoder {
	if amf3 {
		d := amf.NewEnDecAMF3()
		extSetup(d)
		return d
	}
	d := amf.NewEnDecAMF0()
	extSetup(d)
	return d
}

// corpus is a fixed set of messages covering every marker and reader path.
func corpus() []amfMsg {
	var l []amfMsg
	g := &g0{full: true}
	for _, b := range g.leafAlphabet() {
		l = append(l, amfMsg{false, b})
	}
	add0 := func(bs ...[]byte) { l = append(l, amfMsg{false, cat(bs...)}) }
	add3 := func(bs ...[]byte) { l = append(l, amfMsg{true, cat(bs...)}) }
	add0([]byte{3}, b0utf("k"), b0str("v"), []byte{0, 0, 9})
	add0([]byte{3, 0, 0, 9})
	add0([]byte{3, 0, 0, 8})
	add0([]byte{8}, be32(1), b0utf("k"), []byte{5, 0, 0, 9})
	add0([]byte{10}, be32(2), []byte{5, 1, 1})
	add0([]byte{16}, b0utf("T"), b0utf("k"), []byte{5, 0, 0, 9})
	add0([]byte{3, 0, 0, 9, 7, 0, 0})
	add0([]byte{7, 0, 0})
	add0(b0str("onMetaData"), []byte{8}, be32(2), b0utf("width"), b0num(1920), b0utf("s"), b0str("xy"), []byte{0, 0, 9})
	add0(b0str("a"), b0num(2), []byte{5, 6, 13})
	add0([]byte{5}, []byte{2, 0, 5, 'x'}) // truncated second value
	add0([]byte{3}, b0utf("a"), []byte{10}, be32(1), []byte{3}, b0utf("b"), []byte{1, 1, 0, 0, 9, 0, 0, 9})
	add3([]byte{0}, []byte{1, 2, 3})
	for _, v := range []uint32{0, 0x7f, 0x80, 0x3fff, 0x4000, 0x1fffff, 0x200000, 0x1fffffff} {
		add3([]byte{4}, u29(v))
	}
	add3(b3dbl(1.5))
	add3(b3str("hello"))
	add3(b3str(""))
	add3(b3str("x"), []byte{6, 0})
	add3([]byte{8, 1}, b0num(5000)[1:], []byte{8, 0})
	add3([]byte{9, 5, 1, 3, 2})
	add3([]byte{9, 1, 3, 'k', 3, 1})
	add3([]byte{10, 0x13, 1, 3, 'k', 3})
	add3([]byte{10, 11, 3, 'C', 3, 'k', 3, 1})
	add3([]byte{10, 7, 3, 'X', 4, 5})
	add3([]byte{10, 7}, b3utf("DSA"), []byte{0x81, 1, 4, 1, 4, 2, 3, 4, 3, 4, 4})
	add3([]byte{10, 7}, b3utf("DSK"), []byte{1, 4, 1, 0, 0})
	add3([]byte{10, 7}, b3utf("flex.messaging.io.ArrayCollection"), []byte{9, 3, 1, 3})
	add3([]byte{12, 9, 1, 2, 3, 4})
	add3([]byte{12, 1})
	add3([]byte{7, 9, '<', 'a', '/', '>'})
	add3([]byte{11, 9, '<', 'a', '/', '>', 11, 0})
	add3([]byte{6, 4})
	add3([]byte{13})
	add3([]byte{12}, u29(300<<1|1), repBytes(300, 1))
	add3([]byte{12}, u29(70000<<1|1), repBytes(70000, 1), []byte{3})
	add3([]byte{7}, u29(20000<<1|1), []byte(rep(20000)), []byte{3})
	add3([]byte{1}, b3str(rep(9000)), []byte{2})
	add0([]byte{17, 12}, u29(5000<<1|1), repBytes(5000, 2), []byte{5})
	return l
}

type decRun struct {
	vals     []string
	consumed []int
	err      bool
	eof      bool
}

func (d decRun) eq(o decRun) bool {
	if !eqStr(d.vals, o.vals) || d.err != o.err || d.eof != o.eof || len(d.consumed) != len(o.consumed) {
		return false
	}
	for i := range d.consumed {
		if d.consumed[i] != o.consumed[i] {
			return false
		}
	}
	return true
}

func (d decRun) String() string {
	return fmt.Sprintf("%d values %s consumed %v error=%v cleanEOF=%v", len(d.vals), clip(fmt.Sprint(d.vals), 200), d.consumed, d.err, d.eof)
}

// decodeAll decodes value by value until an error.
func decodeAll(amf3 bool, r io.Reader, pos func() int) decRun {
	var d decRun
	dec := newDec(amf3)
	for i := 0; i < 2000; i++ {
		v, err := dec.Decode(r)
		if err != nil {
			d.err, d.eof = true, err == io.EOF
			return d
		}
		d.vals = append(d.vals, canon(v, true))
		d.consumed = append(d.consumed, pos())
	}
	return d
}

func checkArrival(c *Ctx, m amfMsg, base decRun, mk func() *chunkReader, how string) {
	r := mk()
	got := decodeAll(m.amf3, r, func() int { return r.pos })
	c.Check(got.eq(base), "%s delivered %s: %v, but at once: %v", hx(m.data), how, got, base)
	vals, err := newDec(m.amf3).DecodeBatch(mk())
	c.Check((err == nil) == base.eof, "%s delivered %s: batch error %v, at once clean=%v", hx(m.data), how, err, base.eof)
	c.Check(len(vals) == len(base.vals), "%s delivered %s: batch gives %d values, at once %d", hx(m.data), how, len(vals), len(base.vals))
	for i := range vals {
		c.Check(canon(vals[i], true) == base.vals[i], "%s delivered %s: batch value %d is %s", hx(m.data), how, i, canon(vals[i], true))
	}
	c.Eval(1)
}

func baseRun(m amfMsg) decRun {
	r := &chunkReader{data: m.data}
	return decodeAll(m.amf3, r, func() int { return r.pos })
}

func checkCompositions(c *Ctx, m amfMsg, base decRun) {
	n := len(m.data)
	for mask := 0; mask < 1<<uint(n-1); mask++ {
		var sizes []int
		run := 1
		for i := 0; i < n-1; i++ {
			if mask>>uint(i)&1 == 1 {
				sizes = append(sizes, run)
				run = 0
			}
			run++
		}
		sizes = append(sizes, run)
		for opt := 0; opt < 4; opt++ {
			checkArrival(c, m, base, func() *chunkReader {
				return &chunkReader{data: m.data, sizes: sizes, zero: opt&1 == 1, eofWith: opt&2 == 2}
			}, fmt.Sprintf("in reads of %v (empty reads %v, EOF with data %v)", sizes, opt&1 == 1, opt&2 == 2))
		}
	}
}

// corpus messages with their whole-buffer decoding agreeing with the reference.
func init() {
	register(&Prop{
		ID: "A05", Level: "exploration",
		Rule:        "Each evaluation decodes one message delivered in one particular division into reads and compares values, positions after each value and the kind of ending with delivery in a single read. Distinct outcomes are distinct (message, division) pairs with their result.",
		Assumptions: []string{"Errors are compared by presence and by being io.EOF or not, not by text"},
		Build: func(th bool) []*Scenario {
			ms := corpus()
			var ss []*Scenario
			short := pick(11, 15)
			ss = append(ss, &Scenario{Name: "compositions", Note: fmt.Sprintf("every division into reads (2^(n-1)) of every corpus message of at most %d bytes, with and without empty reads and with the last data arriving together with EOF", short), Run: func(c *Ctx) {
				m := ms[c.Choose(len(ms))]
				if len(m.data) > short || len(m.data) == 0 {
					return
				}
				c.Logf("AMF3=%v %s", m.amf3, hx(m.data))
				base := baseRun(m)
				checkCompositions(c, m, base)
				c.Outcome(m.data, m.amf3, base.String())
			}})
			ss = append(ss, &Scenario{Name: "grammar", Note: "every AMF0 and AMF3 grammar stream of at most 2 nodes (3 in the thorough tier) and 10 bytes, in every division", Run: func(c *Ctx) {
				m := amfMsg{amf3: c.Bool()}
				if m.amf3 {
					g := &g3{c: c, nodes: pick(2, 3), lean: pick(0, 1) == 1}
					m.data = g.value(2)
				} else {
					g := &g0{c: c, nodes: pick(2, 3)}
					m.data = g.value(2)
				}
				if len(m.data) > pick(10, 10) {
					return
				}
				base := baseRun(m)
				checkCompositions(c, m, base)
				c.Outcome(m.data, m.amf3, base.String())
			}})
			ss = append(ss, &Scenario{Name: "stalls", Note: "every corpus message of at most 200 bytes in reads of 1 and 7 bytes with 2, 99, 100, 101 or 1000 empty reads before each", Run: func(c *Ctx) {
				m := ms[c.Choose(len(ms))]
				if len(m.data) > 200 {
					return
				}
				base := baseRun(m)
				for _, size := range []int{1, 7} {
					var sizes []int
					for i := 0; i < len(m.data); i += size {
						sizes = append(sizes, size)
					}
					for _, n := range []int{2, 99, 100, 101, 1000} {
						checkArrival(c, m, base, func() *chunkReader {
							return &chunkReader{data: m.data, sizes: sizes, zero: true, stall: n - 1}
						}, fmt.Sprintf("in reads of %d bytes, each after %d empty reads", size, n))
					}
				}
			}})
			ss = append(ss, &Scenario{Name: "splits", Note: "every corpus message (and its every proper prefix up to 64 bytes): every single split point (all for messages up to 2000 bytes, otherwise the first and last 300 and around multiples of 4096) and every fixed read size 1..min(len,300) and powers of two", Run: func(c *Ctx) {
				m := ms[c.Choose(len(ms))]
				if len(m.data) <= 64 {
					m.data = m.data[:len(m.data)-c.Choose(len(m.data))]
				}
				base := baseRun(m)
				n := len(m.data)
				try1 := func(sizes []int, how string) {
					for opt := 0; opt < 4; opt++ {
						checkArrival(c, m, base, func() *chunkReader {
							return &chunkReader{data: m.data, sizes: sizes, zero: opt&1 == 1, eofWith: opt&2 == 2}
						}, how)
					}
				}
				for k := 1; k < n; k++ {
					if n > 2000 && k > 300 && k < n-300 && (k+2)%4096 > 4 {
						continue
					}
					try1([]int{k}, fmt.Sprintf("split at %d", k))
				}
				fixed := func(k int) {
					var sizes []int
					for i := 0; i < n; i += k {
						sizes = append(sizes, k)
					}
					try1(sizes, fmt.Sprintf("in reads of %d bytes", k))
				}
				for k := 1; k <= n && k <= 300; k++ {
					if n > 2000 && k > 8 && k%37 != 0 {
						continue
					}
					fixed(k)
				}
				for k := 512; k < n; k *= 2 {
					fixed(k - 1)
					fixed(k)
					fixed(k + 1)
				}
				c.Outcome(m.data, m.amf3, base.String())
			}})
			return ss
		},
	})

	register(&Prop{
		ID: "A06", Level: "fault_enumeration",
		Rule:        "Each evaluation decodes one truncated, failing or arbitrary input singly and as a batch. Distinct outcomes are distinct inputs with a distinct ending. A panic, a process death or an execution without progress for 40 s is a violation.",
		Assumptions: []string{"A reader failure must come back as a non-EOF error; its text is not compared"},
		Build: func(th bool) []*Scenario {
			ms := corpus()
			var ss []*Scenario
			truncs := func(c *Ctx, m amfMsg) {
				// only messages that the reference reader finds well-formed
				ref := newRef()
				in := &refIn{b: m.data}
				var ends []int
				var wants []string
				for in.pos < len(m.data) {
					v, st, _ := refRun(func() interface{} {
						if m.amf3 {
							return ref.r3.value(in)
						}
						return ref.value(in)
					})
					if st != refOK {
						return
					}
					ends = append(ends, in.pos)
					wants = append(wants, canonRef(v))
				}
				for cut := 1; cut <= len(m.data); cut++ {
					if len(m.data) > 2000 && cut > 200 && cut < len(m.data)-200 && cut%997 != 0 {
						continue
					}
					full := 0
					clean := false
					for _, e := range ends {
						if e <= cut {
							full++
						}
						if e == cut {
							clean = true
						}
					}
					for opt := 0; opt < 3; opt++ {
						fail := opt == 2
						r := &chunkReader{data: m.data[:cut], eofWith: opt == 1}
						if fail {
							r.fail = errInjected
						}
						d := decodeAll(m.amf3, r, func() int { return r.pos })
						c.Check(len(d.vals) >= full && eqOrEmbedded(d.vals[:full], wants[:full]), "first %d bytes of %s: %v, want %d complete values", cut, hx(m.data), d, full)
						c.Check(len(d.vals) == full, "first %d bytes of %s: %d values decoded, only %d complete", cut, hx(m.data), len(d.vals), full)
						c.Check(d.eof == (clean && !fail), "first %d bytes of %s (reader failure %v): %v, clean end expected: %v", cut, hx(m.data), fail, d, clean && !fail)
						rb := &chunkReader{data: m.data[:cut], eofWith: opt == 1, fail: r.fail}
						vals, err := newDec(m.amf3).DecodeBatch(rb)
						c.Check((err == nil) == (clean && !fail), "batch of the first %d bytes of %s (reader failure %v): error %v, clean end expected: %v", cut, hx(m.data), fail, err, clean && !fail)
						c.Check(len(vals) == full, "batch of the first %d bytes of %s: %d values, want %d", cut, hx(m.data), len(vals), full)
						for i := range vals {
							c.Check(canon(vals[i], true) == d.vals[i], "batch value %d differs", i)
						}
						c.Eval(1)
					}
				}
				c.Outcome(m.data, m.amf3)
			}
			ss = append(ss, &Scenario{Name: "corpus-cuts", Note: "every cut point of every corpus message (all for messages up to 2000 bytes), ending with EOF, with data and EOF together, or with a reader failure", Run: func(c *Ctx) {
				m := ms[c.Choose(len(ms))]
				c.Logf("AMF3=%v %s", m.amf3, hx(m.data))
				truncs(c, m)
			}})
			ss = append(ss, &Scenario{Name: "pair-cuts", Note: "every cut point of every pair of corpus messages of one format up to 40 bytes each", Run: func(c *Ctx) {
				a, b := ms[c.Choose(len(ms))], ms[c.Choose(len(ms))]
				if a.amf3 != b.amf3 || len(a.data) > 40 || len(b.data) > 40 {
					return
				}
				truncs(c, amfMsg{a.amf3, cat(a.data, b.data)})
			}})
			ss = append(ss, &Scenario{Name: "grammar-cuts", Note: "every cut point of every grammar stream of at most 3 nodes (4 in the thorough tier)", Run: func(c *Ctx) {
				m := amfMsg{amf3: c.Bool()}
				if m.amf3 {
					g := &g3{c: c, nodes: pick(3, 4), lean: th}
					m.data = g.value(3)
				} else {
					g := &g0{c: c, nodes: pick(3, 4)}
					m.data = g.value(3)
				}
				truncs(c, m)
			}})
			fl := []byte{0, 1, 2, 0x12, 0x40, 0x7f}
			ss = append(ss, &Scenario{Name: "message-cuts", Note: "DSA and DSK messages with every sequence of 1..3 flag bytes over 6 values in each of the first two groups, followed by as many fields as they announce, alone and as an array member: every cut point", Run: func(c *Ctx) {
				b := cat([]byte{10, 7}, b3utf([]string{"DSA", "DSK"}[c.Choose(2)]))
				for g := 0; g < 2; g++ {
					l := 1 + c.Choose(pick(2, 3))
					for i := 0; i < l; i++ {
						f := fl[c.Choose(len(fl))]
						if i < l-1 {
							f |= 0x80
						}
						b = append(b, f)
					}
				}
				in := &refIn{b: cat(b, bytes.Repeat([]byte{0}, 60))}
				if _, st, _ := refRun(func() interface{} { return newRef().r3.value(in) }); st != refOK {
					return
				}
				m := in.b[:in.pos]
				truncs(c, amfMsg{true, m})
				truncs(c, amfMsg{false, cat([]byte{17}, m)})
			}})
			noPanic := func(c *Ctx, b []byte) {
				for _, a3 := range []bool{false, true} {
					_ = decodeSome(a3, b)
				}
			}
			ss = append(ss, allBytes("all-bytes", "every byte string of length 0..3 over all 256 bytes, both formats", every256(), 3, 2, noPanic))
			ss = append(ss, allBytes("marker-bytes", "every byte string of length 0..7 (6 in the quick tier) over 12 letters, both formats", []byte{0, 1, 3, 6, 7, 8, 9, 10, 12, 16, 17, 0x80}, pick(6, 7), 3, noPanic))
			heads := [][]byte{{3}, {8, 0xff, 0xff, 0xff, 0xff}, {10, 0xff, 0xff, 0xff, 0xff}, {16, 0, 0}, {10, 0, 0, 0, 1}, {17, 9, 3, 1}}
			ss = append(ss, &Scenario{Name: "after-head", Note: "every composite header followed by every byte string of length 0..5 over 10 letters (4 in the quick tier)", Run: func(c *Ctx) {
				h := heads[c.Choose(len(heads))]
				l := c.Choose(pick(5, 6))
				al := []byte{0, 1, 2, 5, 7, 9, 10, 3, 17, 0xff}
				b := append([]byte{}, h...)
				for i := 0; i < l; i++ {
					b = append(b, al[c.Choose(len(al))])
				}
				noPanic(c, b)
				c.Eval(1)
			}})
			flagAlpha := []byte{0, 1, 2, 4, 7, 0x7f, 0x80, 0x81, 0xff}
			ss = append(ss, &Scenario{Name: "message-flags", Note: "DSA and DSK messages (alone and inside AMF0) with every sequence of 0..5 flag bytes (6 thorough) over 9 values, followed by 0, 1, 3, 12 or 40 values", Run: func(c *Ctx) {
				name := []string{"DSA", "DSK"}[c.Choose(2)]
				b := cat([]byte{10, 7}, b3utf(name))
				l := c.Choose(pick(6, 7))
				for i := 0; i < l; i++ {
					b = append(b, flagAlpha[c.Choose(len(flagAlpha))])
				}
				for _, n := range []int{0, 1, 3, 12, 40} {
					// a value that is also a run of zero flag bytes, and one that is not
					for _, unit := range [][]byte{{0}, {4, 5}} {
						m := cat(b, bytes.Repeat(unit, n))
						_ = decodeSome(true, m)
						_ = decodeSome(false, cat([]byte{17}, m))
						c.Eval(2)
					}
				}
			}})
			deep := []struct {
				a3   bool
				unit []byte
			}{
				{false, []byte{10, 0, 0, 0, 1}}, {false, []byte{3, 0, 1, 'k'}}, {false, []byte{8, 0, 0, 0, 0, 0, 1, 'k'}}, {false, []byte{16, 0, 0, 0, 1, 'k'}},
				{true, []byte{9, 3, 1}}, {true, []byte{9, 1, 3, 'k'}}, {true, []byte{10, 0x13, 1, 3, 'k'}}, {true, []byte{10, 11, 1, 3, 'k'}},
				{true, []byte{10, 7, 3, 'X'}}, {true, cat([]byte{10, 7}, b3utf("flex.messaging.io.ArrayCollection"))}, {true, cat([]byte{10, 7}, b3utf("DSA"), []byte{1})}, {true, cat([]byte{10, 7}, b3utf("DSK"), []byte{0, 0, 1})},
			}
			ns := []int{1000, 10000, 100000, 1000000, 4000000}
			ss = append(ss, &Scenario{Name: "deep", Solo: true, Note: "every composite kind nested 10^3..10^6 and 4*10^6 deep (stack exhaustion)", Run: func(c *Ctx) {
				d := deep[c.Choose(len(deep))]
				n := ns[c.Choose(len(ns))]
				c.Logf("%d times %s", n, hx(d.unit))
				b := bytes.Repeat(d.unit, n)
				_, err := newDec(d.a3).Decode(bytes.NewReader(b))
				c.Check(err != nil, "truncated nesting of %d accepted", n)
				if !d.a3 {
					return
				}
				_, err = newDec(false).Decode(bytes.NewReader(cat([]byte{17}, b)))
				c.Check(err != nil, "truncated nesting of %d accepted", n)
			}})
			return ss
		},
	})

	register(&Prop{
		ID: "A07", Level: "exploration",
		Rule:        "Each evaluation encodes one integer or length, compares the bytes with the definition of the compact form and decodes them back. Distinct outcomes count distinct encoded lengths and value classes per block.",
		Assumptions: nil,
		Build: func(th bool) []*Scenario {
			var ss []*Scenario
			check := func(c *Ctx, x int64) {
				in := x >= -(1<<28) && x < 1<<28
				kinds := []interface{}{int(x)}
				if x >= math.MinInt32 && x <= math.MaxInt32 {
					kinds = append(kinds, int32(x))
				}
				if x >= 0 && x <= math.MaxUint32 {
					kinds = append(kinds, uint32(x), uint(x))
				}
				for _, k := range kinds {
					checkInt(c, k, x, in)
				}
			}
			var edges []int64
			for _, e := range []int64{0, 1 << 7, 1 << 14, 1 << 21, 1 << 28, 1 << 29, 1 << 31, 1 << 32, 1 << 16, 1 << 8, 1 << 15} {
				edges = append(edges, e, -e)
			}
			ss = append(ss, chunked("edges", "every integer within 3000 of 0 and of +-2^{7,8,14,15,16,21,28,29,31,32}, as int, int32, uint32 and uint where they fit", len(edges)*6001, 500, func(c *Ctx, i int) {
				check(c, edges[i/6001]+int64(i%6001)-3000)
			}))
			var small []interface{}
			for i := -128; i < 256; i++ {
				small = append(small, i)
			}
			ss = append(ss, chunked("small-kinds", "every int8, uint8, int16 and uint16", 1<<17+512, 1000, func(c *Ctx, i int) {
				switch {
				case i < 256:
					checkInt(c, int8(i), int64(int8(i)), true)
				case i < 512:
					checkInt(c, uint8(i), int64(uint8(i)), true)
				case i < 512+65536:
					checkInt(c, int16(i-512), int64(int16(i-512)), true)
				default:
					checkInt(c, uint16(i-512), int64(uint16(i-512)), true)
				}
			}))
			// full domain, strided in the quick tier
			stride := pick(5, 1)
			block := 1 << 20
			nb := 1 << 9
			ss = append(ss, &Scenario{Name: "domain", Note: fmt.Sprintf("the compact domain -2^28..2^28-1 with stride %d (1 = every value)", stride), Run: func(c *Ctx) {
				j := c.Choose(nb)
				lo := int64(-1<<28) + int64(j)*int64(block)
				s := newIntSweep()
				n := 0
				for x := lo; x < lo+int64(block); x++ {
					if int(x-lo)%stride != j%stride && stride > 1 {
						continue
					}
					s.one(c, x)
					n++
					if n%65536 == 0 {
						c.Eval(65536)
						n = 0
					}
				}
				c.Eval(n)
				c.Outcome("domain", j)
			}})
			lens := lengths(1 << 23)
			for i := 300; i < pick(20000, 300000); i++ {
				lens = append(lens, i)
			}
			if th {
				lens = append(lens, 1<<27-1, 1<<27, 1<<28-1)
			}
			buf := make([]byte, lens[len(lens)-1]+1)
			for _, l := range lens {
				if l > len(buf) {
					buf = make([]byte, l)
				}
			}
			str := string(buf)
			ss = append(ss, chunked("lengths", "length fields of strings and byte arrays: 0..20000 (300000 thorough), around every power of two to 2^23 (2^27, 2^28-1 thorough)", len(lens), 50, func(c *Ctx, i int) {
				n := lens[i]
				for k := 0; k < 2; k++ {
					w := &headWriter{}
					var v interface{} = buf[:n]
					mk := byte(12)
					if k == 1 {
						v, mk = str[:n], 6
					}
					got, err := amf.NewEnDecAMF3().Encode(w, v)
					want := cat([]byte{mk}, u29(uint32(n)<<1|1))
					c.Check(err == nil && got == w.n && w.n == len(want)+n, "length %d: %d bytes written, reported %d, error %v", n, w.n, got, err)
					h := w.head
					if len(h) > len(want) {
						h = h[:len(want)]
					}
					c.Check(bytes.Equal(h, want), "length %d: header %s, want %s", n, hx(h), hx(want))
				}
			}))
			var over []uint32
			for k := uint(7); k <= 28; k++ {
				for d := uint32(0); d <= 20; d++ {
					if v := uint32(1)<<k + d; v < 1<<28 {
						over = append(over, v)
					}
					over = append(over, uint32(1)<<k-1-d)
				}
			}
			ss = append(ss, chunked("declared", "length, count and index fields around every power of two from 2^7 to 2^28, with fewer than 100 bytes and 6 table entries there: never taken for a smaller number", len(over), 8, func(c *Ctx, i int) {
				n := over[i]
				fields := []struct {
					name  string
					b     []byte
					index bool
				}{
					{"string length", cat([]byte{6}, u29(n<<1|1)), false}, {"XML length", cat([]byte{7}, u29(n<<1|1)), false}, {"XML 2 length", cat([]byte{11}, u29(n<<1|1)), false}, {"byte array length", cat([]byte{12}, u29(n<<1|1)), false},
					{"array count", cat([]byte{9}, u29(n<<1|1), []byte{1}), false}, {"array key length", cat([]byte{9, 1}, u29(n<<1|1)), false}, {"class name length", cat([]byte{10, 3}, u29(n<<1|1)), false}, {"key length", cat([]byte{10, 11, 1}, u29(n<<1|1)), false},
					{"string index", cat([]byte{6}, u29(n<<1)), true}, {"XML index", cat([]byte{7}, u29(n<<1)), true}, {"byte array index", cat([]byte{12}, u29(n<<1)), true}, {"array index", cat([]byte{9}, u29(n<<1)), true}, {"object index", cat([]byte{10}, u29(n<<1)), true}, {"date index", cat([]byte{8}, u29(n<<1)), true},
				}
				if n < 1<<26 {
					fields = append(fields, struct {
						name  string
						b     []byte
						index bool
					}{"trait index", cat([]byte{10}, u29(n<<2|1)), true})
				}
				if n < 1<<25 {
					fields = append(fields, struct {
						name  string
						b     []byte
						index bool
					}{"member count", cat([]byte{10}, u29(n<<4|3), []byte{1}), false})
				}
				for _, f := range fields {
					// an array that fills the tables: strings, byte arrays, objects, dates
					pre := cat([]byte{9, 17, 1}, b3str("aa"), b3str("bb"), []byte{12, 3, 1}, []byte{10, 11, 3, 'C', 3, 'k', 3, 1}, []byte{8, 1}, b0num(5000)[1:], []byte{7, 3, 'x', 9, 1, 1, 10, 1, 1})
					b := cat(pre, f.b, bytes.Repeat([]byte{1}, 90))
					if f.index {
						b = cat(pre, f.b)
					}
					d := amf.NewEnDecAMF3()
					r := bytes.NewReader(b)
					_, err := d.Decode(r)
					c.Check(err == nil, "table values: %v", err)
					if !f.index && n < 100 {
						continue
					}
					v, err := d.Decode(r)
					c.Check(err != nil, "%s %d in %s: accepted as %s", f.name, n, hx(b), clip(canon(v, true), 200))
					c.Eval(1)
				}
				c.Outcome(n)
			}))
			ss = append(ss, chunked("index-forms", "every non-minimal and minimal four-byte pattern class: first three bytes over 12 values with and without continuation, fourth over all 256", 24*24*24, 16, func(c *Ctx, i int) {
				al := []byte{0, 1, 2, 0x3f, 0x40, 0x41, 0x7f, 0x55, 0x2a, 0x10, 0x08, 0x77}
				pickb := func(k int) byte { return al[k%12] | byte(k/12)<<7 }
				b := []byte{4, pickb(i % 24), pickb(i / 24 % 24), pickb(i / 576), 0}
				for l := 0; l < 256; l++ {
					b[4] = byte(l)
					in := &refIn{b: b, pos: 1}
					u := int64(in.u29())
					if u >= 1<<28 {
						u -= 1 << 29
					}
					r := bytes.NewReader(b)
					v, err := amf.NewEnDecAMF3().Decode(r)
					c.Check(err == nil && canon(v, true) == fnum(float64(u)) && len(b)-r.Len() == in.pos, "bytes %s: got %v error %v consumed %d, want %d consumed %d", hx(b), v, err, len(b)-r.Len(), u, in.pos)
				}
			}))
			return ss
		},
	})

	register(&Prop{
		ID: "A08", Level: "model_checking",
		Rule:        "The model is the list (header present, payload); every sequence of add and remove operations is applied to every message and each result compared with the model byte for byte, with the caller's buffer checked for changes. A state is a distinct message content.",
		Assumptions: []string{"The library's own AMF0 decoder is passed in; removal is also tried with the AMF3 decoder"},
		Build: func(th bool) []*Scenario {
			cmd := "@setDataFrame"
			hdr := b0str(cmd)
			type first struct {
				b    []byte
				kind int // 0 other string, 1 the command, 2 not a string / malformed
			}
			firsts := []first{
				{hdr, 1}, {b0long(cmd), 1}, {cat([]byte{17}, b3str(cmd)), 1},
				{b0str("onMetaData"), 0}, {b0str(""), 0}, {b0str("@setDataFram"), 0}, {b0str("@setDataFrameX"), 0}, {b0str("@SetDataFrame"), 0}, {b0str("@setdataframe"), 0}, {b0str(" @setDataFrame"), 0}, {b0str("@setDataFrame\x00"), 0}, {b0long("onMetaData"), 0}, {cat([]byte{17}, b3str("onMetaData")), 0}, {b0long(rep(70000)), 0}, {b0str("@clearDataFrame"), 0}, {b0str("@setDataFrbme"), 0},
				{nil, 2}, {[]byte{2}, 2}, {hdr[:5], 2}, {hdr[:len(hdr)-1], 2}, {b0num(1), 2}, {[]byte{5}, 2}, {[]byte{1, 1}, 2}, {[]byte{3, 0, 0, 9}, 2}, {cat([]byte{10}, be32(1), hdr), 2}, {cat([]byte{8}, be32(0), []byte{0, 0, 9}), 2}, {[]byte{4}, 2}, {[]byte{17, 4, 1}, 2}, {[]byte{0x0e}, 2}, {[]byte{6}, 2},
			}
			rests := [][]byte{nil, {0}, b0str("onMetaData"), cat(b0str("onMetaData"), []byte{8}, be32(1), b0utf("w"), b0num(3), []byte{0, 0, 9}), {0xff, 0xff}, hdr, repBytes(300, 9), cat(hdr, hdr)}
			depth := pick(4, 6)
			return []*Scenario{
				{Name: "sequences", Note: fmt.Sprintf("%d first values x %d remainders x every sequence of up to %d add/remove operations, with a fresh or a shared decoder", len(firsts), len(rests), depth), Run: func(c *Ctx) {
					f := firsts[c.Choose(len(firsts))]
					rest := rests[c.Choose(len(rests))]
					if f.kind == 2 {
						// a malformed first value followed by more bytes may become another value
						if len(f.b) < 2 || f.b[0] == 2 {
							rest = nil
						}
					}
					shared := amf.NewEnDecAMF0()
					fresh := c.Bool()
					msg := cat(f.b, rest)
					kind := f.kind
					c.Logf("message %s kind %d", hx(msg), kind)
					n := 1 + c.Choose(depth)
					for i := 0; i < n; i++ {
						d := shared
						if fresh {
							d = amf.NewEnDecAMF0()
						}
						buf := make([]byte, len(msg)+8)
						copy(buf, msg)
						for k := len(msg); k < len(buf); k++ {
							buf[k] = 0xA5
						}
						snap := append([]byte{}, buf...)
						in := buf[:len(msg)]
						var out []byte
						var err error
						add := c.Bool()
						c.State(msg, add)
						if add {
							out, err = amf.AddMetaHeader(in, d)
						} else {
							out, err = amf.DelMetaHeader(in, d)
						}
						c.Step(1)
						c.Check(bytes.Equal(buf, snap), "operation %d changed the caller's bytes", i)
						if kind == 2 {
							c.Check(err != nil, "message %s does not begin with a string but was accepted", hx(msg))
							return
						}
						c.Check(err == nil, "operation %d (add=%v) on %s: %v", i, add, hx(msg), err)
						want := msg
						in2 := &refIn{b: msg}
						ref := newRef()
						v, _, _ := refRun(func() interface{} { return ref.value(in2) })
						has := canonRef(v) == mkStr(cmd).c0
						if add && !has {
							want = cat(hdr, msg)
						}
						if !add && has {
							want = msg[in2.pos:]
						}
						c.Check(bytes.Equal(out, want), "operation %d (add=%v) on %s gives %s, want %s", i, add, hx(msg), hx(out), hx(want))
						// the result belongs to the caller: changing it must not affect later operations
						want = append([]byte{}, want...)
						if add && !has {
							for k := range out {
								out[k] = 0x5A
							}
							_ = append(out[:min(len(out), len(hdr))], 0x77)
						}
						msg = want
						in3 := &refIn{b: msg}
						v, st, _ := refRun(func() interface{} { return newRef().value(in3) })
						kind = 2
						if st == refOK {
							if _, ok := v.(string); ok {
								kind = 0
							}
						}
					}
				}},
				chunked("words", fmt.Sprintf("%d well-known names as first string in three encodings", len(words)), len(words), 8, func(c *Ctx, i int) {
					for k, s := range [][]byte{b0str(words[i]), b0long(words[i]), cat([]byte{17}, b3str(words[i]))} {
						msg := cat(s, []byte{3, 0, 0, 9})
						bare, full := msg, cat(hdr, msg)
						if words[i] == cmd {
							bare, full = msg[len(s):], msg
						}
						a, err := amf.AddMetaHeader(msg, amf.NewEnDecAMF0())
						c.Check(err == nil && bytes.Equal(a, full), "add to %q (form %d): %s %v", words[i], k, hx(a), err)
						d, err := amf.DelMetaHeader(msg, amf.NewEnDecAMF0())
						c.Check(err == nil && bytes.Equal(d, bare), "remove from %q (form %d): %s %v", words[i], k, hx(d), err)
						c.Step(2)
					}
					c.State(words[i])
				}),
				chunked("names", "first strings of every length 0..300 in short and long form, payload lengths 0..40", 301*2, 10, func(c *Ctx, i int) {
					s := b0str(rep(i / 2))
					if i&1 == 1 {
						s = b0long(rep(i / 2))
					}
					for n := 0; n <= 40; n += 4 {
						msg := cat(s, repBytes(n, n))
						a, err := amf.AddMetaHeader(msg, amf.NewEnDecAMF0())
						c.Check(err == nil && bytes.Equal(a, cat(hdr, msg)), "add to %s: %s %v", hx(msg), hx(a), err)
						d, err := amf.DelMetaHeader(a, amf.NewEnDecAMF0())
						c.Check(err == nil && bytes.Equal(d, msg), "remove from %s: %s %v", hx(a), hx(d), err)
						e, err := amf.DelMetaHeader(cat(b0long(cmd), msg), amf.NewEnDecAMF0())
						c.Check(err == nil && bytes.Equal(e, msg), "remove long-form command: %s %v, want %s", hx(e), err, hx(msg))
						g, err := amf.DelMetaHeader(cat(b3str(cmd), msg), amf.NewEnDecAMF3())
						c.Check(err == nil && bytes.Equal(g, msg), "remove AMF3-form command: %s %v, want %s", hx(g), err, hx(msg))
						c.Step(4)
					}
					c.State(s)
				}),
			}
		},
	})

	register(&Prop{
		ID: "A09", Level: "exploration",
		Rule:        "Each evaluation decodes one message with a declared length or count far beyond the data and measures the bytes the process allocates meanwhile (runtime.MemStats.TotalAlloc in a single-threaded scenario). Distinct outcomes are distinct messages.",
		Assumptions: []string{"Allowance: 4 MiB plus 64 bytes per received byte"},
		Build: func(th bool) []*Scenario {
			var lens []uint64
			for k := uint(7); k <= 32; k++ {
				lens = append(lens, 1<<k-1, 1<<k)
			}
			lens = lens[:len(lens)-1]
			type shape struct {
				name string
				amf3 bool
				mk   func(n uint64) []byte
				max  uint64
			}
			u := func(n uint64, shift uint, low uint32) []byte { return u29(uint32(n)<<shift | low) }
			shapes := []shape{
				{"long string", false, func(n uint64) []byte { return cat([]byte{12}, be32(int(n))) }, 1<<32 - 1},
				{"XML document", false, func(n uint64) []byte { return cat([]byte{15}, be32(int(n))) }, 1<<32 - 1},
				{"strict array", false, func(n uint64) []byte { return cat([]byte{10}, be32(int(n))) }, 1<<32 - 1},
				{"associative array", false, func(n uint64) []byte { return cat([]byte{8}, be32(int(n))) }, 1<<32 - 1},
				// the count of these two is only a hint, the value is complete
				{"empty associative array", false, func(n uint64) []byte { return cat([]byte{8}, be32(int(n)), []byte{0, 0, 9}) }, 1<<32 - 1},
				{"associative array with members", false, func(n uint64) []byte {
					return cat([]byte{8}, be32(int(n)), b0utf("a"), []byte{5}, b0utf("b"), []byte{8}, be32(int(n)), []byte{0, 0, 9}, []byte{0, 0, 9})
				}, 1<<32 - 1},
				{"string", false, func(n uint64) []byte { return cat([]byte{2}, be16(int(n))) }, 1<<16 - 1},
				{"key", false, func(n uint64) []byte { return cat([]byte{3}, be16(int(n))) }, 1<<16 - 1},
				{"deeply nested strict arrays", false, func(n uint64) []byte { return bytes.Repeat(cat([]byte{10}, be32(int(n))), 990) }, 1<<32 - 1},
				{"nested associative arrays", false, func(n uint64) []byte { return bytes.Repeat(cat([]byte{8}, be32(int(n)), b0utf("k")), 990) }, 1<<32 - 1},
				{"nested objects with long keys", false, func(n uint64) []byte {
					return cat(bytes.Repeat(cat([]byte{3}, b0utf("k")), 990), []byte{3}, be16(int(n)))
				}, 1<<16 - 1},
				{"deeply nested dense arrays", true, func(n uint64) []byte { return bytes.Repeat(cat([]byte{9}, u(n, 1, 1), []byte{1}), 990) }, 1<<28 - 1},
				{"nested arrays in sealed members", true, func(n uint64) []byte {
					return bytes.Repeat(cat([]byte{10, 0x13, 1, 3, 'k', 9}, u(n, 1, 1), []byte{1}), 480)
				}, 1<<28 - 1},
				{"nested strict arrays", false, func(n uint64) []byte { return bytes.Repeat(cat([]byte{10}, be32(int(n))), 200) }, 1<<32 - 1},
				{"string", true, func(n uint64) []byte { return cat([]byte{6}, u(n, 1, 1)) }, 1<<28 - 1},
				{"XML", true, func(n uint64) []byte { return cat([]byte{7}, u(n, 1, 1)) }, 1<<28 - 1},
				{"XML 2", true, func(n uint64) []byte { return cat([]byte{11}, u(n, 1, 1)) }, 1<<28 - 1},
				{"byte array", true, func(n uint64) []byte { return cat([]byte{12}, u(n, 1, 1)) }, 1<<28 - 1},
				{"dense array", true, func(n uint64) []byte { return cat([]byte{9}, u(n, 1, 1), []byte{1}) }, 1<<28 - 1},
				{"array key", true, func(n uint64) []byte { return cat([]byte{9, 1}, u(n, 1, 1)) }, 1<<28 - 1},
				{"class name", true, func(n uint64) []byte { return cat([]byte{10, 3}, u(n, 1, 1)) }, 1<<28 - 1},
				{"sealed member count", true, func(n uint64) []byte { return cat([]byte{10}, u(n, 4, 3), []byte{1}) }, 1<<25 - 1},
				{"dynamic key", true, func(n uint64) []byte { return cat([]byte{10, 11, 1}, u(n, 1, 1)) }, 1<<28 - 1},
				{"nested dense arrays", true, func(n uint64) []byte { return bytes.Repeat(cat([]byte{9}, u(n, 1, 1), []byte{1}), 200) }, 1<<28 - 1},
				{"vector", true, func(n uint64) []byte { return cat([]byte{13}, u(n, 1, 1), []byte{0}) }, 1<<28 - 1},
				{"dictionary", true, func(n uint64) []byte { return cat([]byte{17}, u(n, 1, 1), []byte{0}) }, 1<<28 - 1},
				{"index of a missing string", true, func(n uint64) []byte { return cat([]byte{6}, u(n, 1, 0)) }, 1<<28 - 1},
			}
			fills := []int{0, 1, 2, 100, 5000, 70000}
			return []*Scenario{{Name: "hostile-lengths", Solo: true, Note: fmt.Sprintf("%d length or count fields x %d declared sizes around every power of two from 2^7 to 2^32 x %d amounts of data actually present, alone and inside AMF0, singly and as a batch", len(shapes), len(lens), len(fills)), Run: func(c *Ctx) {
				s := shapes[c.Choose(len(shapes))]
				n := lens[c.Choose(len(lens))]
				if n > s.max {
					n = s.max
				}
				fill := fills[c.Choose(len(fills))]
				data := cat(s.mk(n), bytes.Repeat([]byte{1}, fill))
				if s.amf3 && s.mk(n)[0] == 10 || !s.amf3 && s.mk(n)[0] != 12 && s.mk(n)[0] != 15 && s.mk(n)[0] != 2 {
					data = cat(s.mk(n), bytes.Repeat([]byte{5}, fill))
				}
				c.Logf("%s declaring %d with %d bytes present", s.name, n, fill)
				embed := false
				if s.amf3 {
					embed = c.Bool()
				}
				batch := c.Bool()
				a3 := s.amf3
				if embed {
					data, a3 = cat([]byte{17}, data), false
				}
				dec := newDec(a3)
				r := bytes.NewReader(data)
				var m0, m1 runtime.MemStats
				runtime.ReadMemStats(&m0)
				var err error
				if batch {
					_, err = dec.DecodeBatch(r)
				} else {
					_, err = dec.Decode(r)
				}
				runtime.ReadMemStats(&m1)
				used := m1.TotalAlloc - m0.TotalAlloc
				limit := uint64(4<<20 + 64*len(data))
				c.Check(used <= limit, "%s declaring %d with %d bytes received: allocated %d bytes, allowance %d", s.name, n, len(data), used, limit)
				if hint := strings.Contains(s.name, "associative array") && !strings.HasPrefix(s.name, "nested"); n > uint64(fill)*2+10 && !hint {
					c.Check(err != nil, "%s declaring %d with %d bytes received: accepted", s.name, n, len(data))
				}
				c.Eval(1)
				c.Outcome(data, batch)
			}}}
		},
	})
}

func eqOrEmbedded(a, b []string) bool { return eqStr(a, b) }

func decodeSome(a3 bool, b []byte) error {
	dec := newDec(a3)
	r := bytes.NewReader(b)
	for i := 0; i < 64; i++ {
		if _, err := dec.Decode(r); err != nil {
			return err
		}
	}
	return nil
}

type headWriter struct {
	head []byte
	n    int
}

func (w *headWriter) Write(p []byte) (int, error) {
	if len(w.head) < 8 {
		k := 8 - len(w.head)
		if k > len(p) {
			k = len(p)
		}
		w.head = append(w.head, p[:k]...)
	}
	w.n += len(p)
	return len(p), nil
}

func checkInt(c *Ctx, v interface{}, x int64, in bool) {
	var w bytes.Buffer
	n, err := amf.NewEnDecAMF3().Encode(&w, v)
	c.Check(err == nil && n == w.Len(), "%T %d: %d bytes, reported %d, error %v", v, x, w.Len(), n, err)
	want := b3dbl(float64(x))
	if in {
		want = b3int(int(x))
	}
	c.Check(bytes.Equal(w.Bytes(), want), "%T %d encodes to %s, want %s", v, x, hx(w.Bytes()), hx(want))
	got, err := amf.NewEnDecAMF3().Decode(&w)
	c.Check(err == nil && canon(got, true) == fnum(float64(x)), "%T %d decodes to %v (%T), error %v", v, x, got, got, err)
	c.Check(w.Len() == 0, "%T %d: %d bytes not consumed", v, x, w.Len())
}

type intSweep struct {
	e   *amf.EnDecAMF3
	w   bytes.Buffer
	r   *bytes.Reader
	ref [5]byte
}

func newIntSweep() *intSweep { return &intSweep{e: amf.NewEnDecAMF3(), r: bytes.NewReader(nil)} }

func (s *intSweep) one(c *Ctx, x int64) {
	s.w.Reset()
	n, err := s.e.Encode(&s.w, int32(x))
	u := uint32(x) & 0x1fffffff
	var want []byte
	s.ref[0] = 4
	switch {
	case u < 0x80:
		s.ref[1] = byte(u)
		want = s.ref[:2]
	case u < 0x4000:
		s.ref[1], s.ref[2] = byte(u>>7)|0x80, byte(u&0x7f)
		want = s.ref[:3]
	case u < 0x200000:
		s.ref[1], s.ref[2], s.ref[3] = byte(u>>14)|0x80, byte(u>>7&0x7f)|0x80, byte(u&0x7f)
		want = s.ref[:4]
	default:
		s.ref[1], s.ref[2], s.ref[3], s.ref[4] = byte(u>>22)|0x80, byte(u>>15&0x7f)|0x80, byte(u>>8&0x7f)|0x80, byte(u)
		want = s.ref[:5]
	}
	if err != nil || n != s.w.Len() || !bytes.Equal(s.w.Bytes(), want) {
		c.Fail("integer %d encodes to %s (reported %d, error %v), want %s", x, hx(s.w.Bytes()), n, err, hx(want))
	}
	s.r.Reset(s.w.Bytes())
	v, err := s.e.Decode(s.r)
	ok := false
	switch k := v.(type) {
	case uint32:
		ok = int64(k) == x
	case int32:
		ok = int64(k) == x
	default:
		ok = canon(v, true) == fnum(float64(x))
	}
	if err != nil || !ok || s.r.Len() != 0 {
		c.Fail("integer %d (%s) decodes to %v, error %v, %d bytes left", x, hx(want), v, err, s.r.Len())
	}
}
