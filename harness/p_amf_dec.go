package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/moggle-mog/goav/amf"
)

// gen0 emits one well-formed-or-referring AMF0 value. *cx counts the complex
// values begun so far, so that references range over every entry and one past.
type g0 struct {
	c     *Ctx
	nodes int
	cx    int
	full  bool
	mul   int // reference entries available from earlier rounds
}

func (g *g0) leafAlphabet() [][]byte {
	small := [][]byte{
		b0num(1.5), {1, 2}, b0str("a"), {5},
		cat([]byte{11}, b0num(86400000)[1:], []byte{0, 60}),
		{17, 9, 3, 1, 4, 7}, // embedded AMF3 array [7]
	}
	if !g.full {
		return small
	}
	return append(small,
		b0num(-0.5), []byte{0, 0x7f, 0xf8, 0, 0, 0, 0, 0, 1}, []byte{1, 0}, []byte{1, 1}, []byte{1, 255},
		b0str(""), b0str("\x00\x00\x09"), b0long(""), b0long("xy"), cat([]byte{15}, b0long("<a/>")[1:]), b0long(rep(70000)), b0str(rep(65535)),
		[]byte{6}, []byte{13}, cat([]byte{11}, b0num(-1.5)[1:], []byte{255, 255}),
		[]byte{17, 4, 0xff, 0xff, 0xff, 0xff}, []byte{17, 0x06, 0x03, 'z'}, []byte{17, 10, 11, 1, 3, 'k', 3, 1}, []byte{17, 12, 5, 0, 9},
		[]byte{4}, []byte{14}, []byte{9}, []byte{18}, []byte{0xff}, []byte{17, 0x0d, 1}, []byte{17, 0x20})
}

func (g *g0) value(depth int) []byte {
	g.nodes--
	ls := g.leafAlphabet()
	n := len(ls) + g.cx + 1
	if depth > 0 {
		n += 4
	}
	k := g.c.Choose(n)
	if k < len(ls) {
		return ls[k]
	}
	k -= len(ls)
	if k <= g.cx {
		return cat([]byte{7}, be16(k))
	}
	k -= g.cx + 1
	g.cx++
	props := func() []byte {
		var b []byte
		for i := 0; i < 2 && g.nodes > 0 && g.c.Bool(); i++ {
			key := "k"
			if i == 1 {
				key = []string{"k", "long key"}[g.c.Choose(2)]
			}
			b = cat(b, b0utf(key), g.value(depth-1))
		}
		return cat(b, []byte{0, 0, 9})
	}
	switch k {
	case 0:
		return cat([]byte{3}, props())
	case 1:
		p := props()
		return cat([]byte{8}, [][]byte{{0, 0, 0, 0}, {0, 0, 0, 1}, {0xff, 0xff, 0xff, 0xff}}[len(p)%3], p)
	case 2:
		var b []byte
		n := 0
		for n < 3 && g.nodes > 0 && g.c.Bool() {
			b = cat(b, g.value(depth-1))
			n++
		}
		return cat([]byte{10}, be32(n), b)
	default:
		name := "Cls"
		return cat([]byte{16}, b0utf(name), props())
	}
}

// checkDec compares the real decoder with the reference reader on a stream:
// value by value, then as a batch.
func checkDec(c *Ctx, amf3 bool, data []byte, setup func(interface{}), ref *ref0Dec, limit int) (values int, last refStatus) {
	mk := func() amf.Decoder {
		if amf3 {
			d := amf.NewEnDecAMF3()
			if setup != nil {
				setup(d)
			}
			return d
		}
		d := amf.NewEnDecAMF0()
		if setup != nil {
			setup(d)
		}
		return d
	}
	dec := mk()
	r := bytes.NewReader(data)
	in := &refIn{b: data}
	var wants []string
	last = refOK
	for i := 0; in.pos < len(data) && i < limit; i++ {
		v, st, why := refRun(func() interface{} {
			if amf3 {
				return ref.r3.value(in)
			}
			return ref.value(in)
		})
		if st == refUnspec {
			_, _ = dec.Decode(r) // must not panic
			return i, st
		}
		got, err := dec.Decode(r)
		c.Step(1)
		if st != refOK {
			c.Check(err != nil && err != io.EOF || err == io.EOF && st == refTruncated, "value %d of %s: decoder accepted it as %T, but it %v (%s)", i, hx(data), got, st, why)
			c.Check(err != nil, "value %d of %s: %v (%s) but no error", i, hx(data), st, why)
			last = st
			break
		}
		want := canonRef(v)
		c.Check(err == nil, "value %d of %s: error %v, want %s", i, hx(data), err, qs(want))
		c.Check(canon(got, amf3 || hasEmbedded(data)) == want, "value %d of %s: got %s, want %s", i, hx(data), qs(canon(got, true)), qs(want))
		c.Check(len(data)-r.Len() == in.pos, "value %d of %s: decoder stopped at byte %d, want %d", i, hx(data), len(data)-r.Len(), in.pos)
		wants = append(wants, want)
	}
	got, err := mk().DecodeBatch(bytes.NewReader(data))
	if last == refOK {
		c.Check(err == nil, "batch of %s: error %v", hx(data), err)
	} else {
		c.Check(err != nil, "batch of %s: no error though a value %v", hx(data), last)
	}
	c.Check(len(got) == len(wants), "batch of %s: %d values, want %d", hx(data), len(got), len(wants))
	for i := range wants {
		c.Check(canon(got[i], amf3 || hasEmbedded(data)) == wants[i], "batch of %s: value %d is %s, want %s", hx(data), i, qs(canon(got[i], true)), qs(wants[i]))
	}
	c.Eval(1)
	return len(wants), last
}

func hasEmbedded(b []byte) bool { return bytes.IndexByte(b, 17) >= 0 }

func tableFP(d *ref0Dec) string {
	s := fmt.Sprintf("%d/%d/%d/%d", len(d.table), len(d.r3.strs), len(d.r3.objs), len(d.r3.traits))
	for _, v := range d.table {
		if _, p := v.(refPending); !p {
			s += canonRef(v)
		}
	}
	for _, v := range d.r3.strs {
		s += "|" + v
	}
	for _, v := range d.r3.objs {
		if x, ok := v.(refXML); ok {
			s += "x" + string(x)
		} else if _, p := v.(refPending); !p {
			s += canonRef(v)
		}
	}
	return s
}

// ---- AMF3 grammar ----

type g3 struct {
	c      *Ctx
	nodes  int
	full   bool
	lean   bool
	strs   int
	objs   int
	traits []refTrait
}

func (g *g3) key(empty bool) []byte {
	// literal or reference; never the empty string unless asked for
	n := 1 + g.strs
	k := g.c.Choose(n)
	if k == 0 {
		g.strs++
		return b3utf(fmt.Sprintf("k%d", g.strs))
	}
	return u29(uint32(k-1) << 1)
}

func (g *g3) value(depth int) []byte {
	g.nodes--
	type opt func() []byte
	lit := func(b []byte) opt { return func() []byte { return b } }
	opts := []opt{
		lit([]byte{1}), lit([]byte{3}), lit([]byte{4, 0xff, 0xff, 0xff, 0xff}),
		func() []byte { g.strs++; return b3str("s") },
	}
	if g.lean {
		opts = opts[2:]
	}
	if g.full {
		opts = append(opts, lit([]byte{0}), lit([]byte{2}), lit(b3dbl(-2.5)), lit([]byte{4, 5}), lit([]byte{4, 0xbf, 0xff, 0xff, 0xff}), lit([]byte{4, 0xc0, 0x80, 0x80, 0x00}), lit(b3str("")),
			func() []byte { g.strs++; return b3str(rep(300)) },
			lit([]byte{13, 1, 0}), lit([]byte{14, 1, 0}), lit([]byte{15, 1, 0}), lit([]byte{16, 1, 0, 1}), lit([]byte{17, 1, 0}), lit([]byte{18}), lit([]byte{255}))
	}
	for i := 0; i <= g.strs; i++ {
		opts = append(opts, lit(cat([]byte{6}, u29(uint32(i)<<1))))
	}
	cx := func(b []byte) opt { return func() []byte { g.objs++; return b } }
	opts = append(opts, cx([]byte{12, 5, 0, 1}))
	if !g.lean {
		opts = append(opts, cx(cat([]byte{8, 1}, b0num(1600000000123)[1:])), cx([]byte{7, 7, '<', 'a', '>'}))
	}
	if g.full {
		opts = append(opts, cx([]byte{12, 1}), cx([]byte{7, 1}), cx([]byte{11, 1}), cx([]byte{11, 5, '<', '>'}), cx(cat([]byte{8, 1}, b0num(-5001)[1:])))
	}
	// references of every kind to every entry and one past the end
	kinds := []byte{9, 10, 12, 8, 7}
	if g.full {
		kinds = append(kinds, 11)
	}
	if g.lean {
		kinds = kinds[:2]
	}
	for i := 0; i <= g.objs; i++ {
		for _, k := range kinds {
			opts = append(opts, lit(cat([]byte{k}, u29(uint32(i)<<1))))
		}
	}
	if depth > 0 {
		kids := func(max int) (b []byte, n int) {
			for n < max && g.nodes > 0 && g.c.Bool() {
				b = cat(b, g.value(depth-1))
				n++
			}
			return
		}
		dyn := func() []byte {
			var b []byte
			for i := 0; i < 2 && g.nodes > 0 && g.c.Bool(); i++ {
				b = cat(b, g.key(false), g.value(depth-1))
			}
			return cat(b, []byte{1})
		}
		body := func(t refTrait) []byte {
			if t.ext {
				return g.value(depth - 1)
			}
			var b []byte
			for range t.props {
				b = cat(b, g.value(depth-1))
			}
			if t.dyn {
				b = cat(b, dyn())
			}
			return b
		}
		opts = append(opts, func() []byte { // array
			g.objs++
			var assoc []byte
			if g.nodes > 0 && g.c.Bool() {
				assoc = cat(g.key(false), g.value(depth-1))
			}
			b, n := kids(2)
			return cat([]byte{9}, u29(uint32(n)<<1|1), assoc, []byte{1}, b)
		})
		inline := func(ext, dynamic bool, name string, nprops int) opt {
			return func() []byte {
				t := refTrait{typ: name, ext: ext && name != "Unknown", dyn: dynamic}
				u := uint32(3)
				if ext {
					u |= 4
				}
				if dynamic {
					u |= 8
				}
				u |= uint32(nprops) << 4
				b := cat([]byte{10}, u29(u))
				if name != "" {
					g.strs++
				}
				b = cat(b, b3utf(name))
				for i := 0; i < nprops; i++ {
					t.props = append(t.props, "")
					b = cat(b, g.key(false))
				}
				g.traits = append(g.traits, t)
				g.objs++
				// note: members may themselves add traits
				return cat(b, body(t))
			}
		}
		if g.nodes > 0 { // these need a value inside
			opts = append(opts, inline(false, true, "C", 1), inline(true, false, "flex.messaging.io.ArrayCollection", 0))
			if !g.lean {
				opts = append(opts, inline(false, false, "", 1), inline(false, true, "", 0), inline(true, false, "X", 0))
			}
		}
		if g.full {
			opts = append(opts, inline(false, false, "", 0), inline(true, false, "Unknown", 0))
			if g.nodes > 1 {
				opts = append(opts, inline(false, false, "Two", 2))
			}
		}
		for i := 0; i <= len(g.traits); i++ {
			i := i
			if i < len(g.traits) {
				if t := g.traits[i]; len(t.props) > g.nodes || t.ext && g.nodes == 0 {
					continue
				}
			}
			opts = append(opts, func() []byte {
				b := cat([]byte{10}, u29(uint32(i)<<2|1))
				g.objs++
				if i < len(g.traits) {
					b = cat(b, body(g.traits[i]))
				}
				return b
			})
		}
	}
	return opts[g.c.Choose(len(opts))]()
}

func extSetup(d interface{}) {
	h := func(ed *amf.EnDecAMF3, r io.Reader) (interface{}, error) {
		v, err := ed.Decode(r)
		if err != nil {
			return nil, err
		}
		return amf.Array{"handled", v}, nil
	}
	reg := func(name string, h amf.ExternalHandler) {
		switch x := d.(type) {
		case *amf.EnDecAMF3:
			x.RegisterExternalHandler(name, h)
		case *amf.EnDecAMF0:
			x.RegisterExternalHandler(name, h)
		}
	}
	reg("X", h)
	reg("plain", func(ed *amf.EnDecAMF3, r io.Reader) (interface{}, error) { return ed.Decode(r) })
	reg("nothing", func(ed *amf.EnDecAMF3, r io.Reader) (interface{}, error) { return nil, nil })
	reg("pair", func(ed *amf.EnDecAMF3, r io.Reader) (interface{}, error) {
		a, err := ed.Decode(r)
		if err != nil {
			return nil, err
		}
		b, err := ed.Decode(r)
		if err != nil {
			return nil, err
		}
		return amf.Array{a, b}, nil
	})
}

func newRef() *ref0Dec {
	return &ref0Dec{r3: ref3{ext: map[string]bool{"X": true, "plain": true, "nothing": true, "pair": true}}}
}

// sessions drives one decoder object through several inputs, each read value by
// value or as a batch, with encoder calls on the same object in between.
func sessions(amf3 bool) *Scenario {
	units := [][]byte{
		{3, 0, 1, 'a', 5, 0, 0, 9}, {10, 0, 0, 0, 1, 5}, {8, 0, 0, 0, 0, 0, 1, 'e', 5, 0, 0, 9}, {16, 0, 1, 'T', 0, 0, 9},
		{7, 0, 0}, {7, 0, 1}, {7, 0, 2}, {2, 0, 1, 's'}, {17, 9, 3, 1, 6, 3, 'z'}, {17, 9, 0}, {17, 6, 0}, {},
	}
	if amf3 {
		units = [][]byte{
			{6, 3, 's'}, {9, 3, 1, 6, 3, 't'}, {10, 0x13, 3, 'C', 3, 'p', 3}, {12, 3, 9}, {6, 0}, {6, 2}, {6, 4}, {9, 0}, {10, 1, 2}, {12, 2}, {4, 5}, {},
		}
	}
	max := pick(3, 4)
	return &Scenario{Name: "sessions", Note: fmt.Sprintf("one decoder given every sequence of 1..%d inputs over %d units (defining values, references to entries 0..2, scalars, nothing), each input read value by value or as a batch, with or without encoder calls on the same object before it", max, len(units)), Run: func(c *Ctx) {
		var dec amf.Decoder = amf.NewEnDecAMF0()
		if amf3 {
			dec = amf.NewEnDecAMF3()
		}
		ref := newRef()
		n := 1 + c.Choose(max)
		for i := 0; i < n; i++ {
			data := units[c.Choose(len(units))]
			mode := c.Choose(3)
			c.Logf("input %s mode %d", hx(data), mode)
			if mode == 2 {
				_, err := dec.(amf.Encoder).Encode(io.Discard, amf.Array{amf.Object{"q": "w"}, amf.TypedObject{Type: "U", Object: amf.Object{"q": []byte{1}}}})
				c.Check(err == nil, "encoding between inputs: %v", err)
			}
			in := &refIn{b: data}
			var wants []string
			bad := false
			for in.pos < len(data) {
				v, st, _ := refRun(func() interface{} {
					if amf3 {
						return ref.r3.value(in)
					}
					return ref.value(in)
				})
				if st != refOK {
					bad = true
					break
				}
				wants = append(wants, canonRef(v))
			}
			r := bytes.NewReader(data)
			var vals []interface{}
			var err error
			if mode == 1 {
				vals, err = dec.DecodeBatch(r)
			} else {
				for {
					var v interface{}
					if v, err = dec.Decode(r); err != nil {
						break
					}
					vals = append(vals, v)
				}
				if err == io.EOF {
					err = nil
				}
			}
			c.Check((err != nil) == bad, "input %d (%s): error %v, refusal expected: %v", i, hx(data), err, bad)
			c.Check(len(vals) == len(wants), "input %d (%s): %d values, want %d", i, hx(data), len(vals), len(wants))
			for k := range wants {
				c.Check(canon(vals[k], true) == wants[k], "input %d (%s): value %d is %s, want %s", i, hx(data), k, canon(vals[k], true), wants[k])
			}
			c.Step(len(wants))
			c.Eval(1)
			c.State(tableFP(ref))
		}
	}}
}

// allBytes enumerates every byte string over alpha of length 0..n, the last
// `tail` positions inside one leaf.
func allBytes(name, note string, alpha []byte, n, tail int, f func(c *Ctx, b []byte)) *Scenario {
	if tail > n {
		tail = n
	}
	return &Scenario{Name: name, Note: note, Run: func(c *Ctx) {
		l := c.Choose(n + 1)
		b := make([]byte, l)
		t := tail
		if t > l {
			t = l
		}
		for i := 0; i < l-t; i++ {
			b[i] = alpha[c.Choose(len(alpha))]
		}
		idx := make([]int, t)
		for i := range idx {
			b[l-t+i] = alpha[0]
		}
		for {
			if p := try(func() { f(c, b) }); p != nil {
				c.Fail("input %s: panic: %v", hx(b), p)
			}
			c.Eval(1)
			i := t - 1
			for ; i >= 0; i-- {
				idx[i]++
				if idx[i] < len(alpha) {
					b[l-t+i] = alpha[idx[i]]
					break
				}
				idx[i] = 0
				b[l-t+i] = alpha[0]
			}
			if i < 0 {
				return
			}
		}
	}}
}

func every256() []byte {
	b := make([]byte, 256)
	for i := range b {
		b[i] = byte(i)
	}
	return b
}

// dec3Bytes: AMF3 bytes that make short well-formed values likely.
var amf0Alpha = []byte{0, 1, 2, 3, 5, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 'k'}
var amf3Alpha = []byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 0x13, 0x80, 'k'}

func init() {
	register(&Prop{
		ID: "A02", Level: "model_checking",
		Rule:        "The reference AMF0 reader (explicit reference table) is the model; every generated byte stream is run through the real decoder and each step's value, error and reader position compared with it. A state is a distinct content of the model's tables; a transition is one decoded value.",
		Assumptions: []string{"Cyclic references (to a value still being read) are only required not to crash", "Values nest at most 1000 deep"},
		Build: func(th bool) []*Scenario {
			var ss []*Scenario
			run := func(full bool, nodes, depth, maxVals int) func(c *Ctx) {
				return func(c *Ctx) {
					g := &g0{c: c, nodes: nodes, full: full}
					var data []byte
					for i := 0; i < maxVals && g.nodes > 0; i++ {
						data = append(data, g.value(depth)...)
						if i+1 < maxVals && g.nodes > 0 && !c.Bool() {
							break
						}
					}
					c.Logf("AMF0 stream %s", hx(data))
					ref := newRef()
					checkDec(c, false, data, extSetup, ref, 1000)
					c.State(tableFP(ref))
					c.Outcome(data)
				}
			}
			n := pick(5, 6)
			ss = append(ss, &Scenario{Name: "grammar", Note: fmt.Sprintf("every stream of 1..3 values with at most %d nodes in total, depth <= 3, over 6 scalar kinds, object, associative, strict and typed composites and every reference index incl. one past the end", n), Run: run(false, n, 3, 3)})
			ss = append(ss, &Scenario{Name: "grammar-wide", Note: "the full scalar alphabet (all markers incl. reserved and unknown ones) with at most 3 nodes, depth 2", Run: run(true, 3, 2, 3)})
			ss = append(ss, chunked("very-long-batches", "batches of 100000 values of five kinds in turn, each 1, 7 or 1000 times in a row, decoded at once and one by one", 3, 1, func(c *Ctx, i int) {
				hold := []int{1, 7, 1000}[i]
				bs := [][]byte{[]byte{1, 1}, []byte{5}, b0num(7), b0str("x"), []byte{1, 0}}
				es := []interface{}{true, nil, float64(7), "x", false}
				var data []byte
				var want []string
				for k := 0; k < 100000; k++ {
					data = append(data, bs[k/hold%5]...)
					want = append(want, canon(es[k/hold%5], false))
				}
				vs, err := amf.NewEnDecAMF0().DecodeBatch(bytes.NewReader(data))
				c.Check(err == nil && len(vs) == len(want), "batch of %d values: %d, %v", len(want), len(vs), err)
				d, r := amf.NewEnDecAMF0(), bytes.NewReader(data)
				for k := range want {
					v, err := d.Decode(r)
					c.Check(err == nil && canon(v, false) == want[k] && canon(vs[k], false) == want[k], "value %d is %v and in the batch %v, %v, want %s", k, v, vs[k], err, want[k])
				}
				c.Step(200000)
				c.Outcome(i)
			}))
			ss = append(ss, referred(false))
			ss = append(ss, chunked("references", "a stream of n complex values of rotating kinds followed by a reference to every index 0..n+1, for n up to 70, and indices 255, 256, 65535", 70, 1, func(c *Ctx, n int) {
				var pre []byte
				for i := 0; i < n; i++ {
					switch i % 4 {
					case 0:
						pre = cat(pre, []byte{3}, b0utf("i"), b0num(float64(i)), []byte{0, 0, 9})
					case 1:
						pre = cat(pre, []byte{10}, be32(1), b0num(float64(i)))
					case 2:
						pre = cat(pre, []byte{16}, b0utf("T"), b0utf("i"), b0num(float64(i)), []byte{0, 0, 9})
					default:
						pre = cat(pre, []byte{8}, be32(9), b0utf("i"), b0num(float64(i)), []byte{0, 0, 9})
					}
				}
				for _, i := range append(func() (l []int) {
					for i := 0; i <= n+1; i++ {
						l = append(l, i)
					}
					return
				}(), 255, 256, 65535) {
					ref := newRef()
					checkDec(c, false, cat(pre, []byte{7}, be16(i)), extSetup, ref, 1000)
					c.State(tableFP(ref))
				}
			}))
			ss = append(ss, allBytes("bytes", "every byte string of length 0..6 over a 16-letter alphabet of markers and lengths: where the reference reader gives a value the decoder must give it, where it refuses or the data ends the decoder must refuse", amf0Alpha, pick(5, 6), 3, func(c *Ctx, b []byte) {
				checkDec(c, false, b, extSetup, newRef(), 1000)
			}))
			ss = append(ss, chunked("contents", "every content of one or two bytes, and 1032 contents of 300 and 65540 bytes, as string, long string, XML document, object key, associative key, type name and embedded AMF3 string", twoBytesN+longContentN, 128, func(c *Ctx, i int) {
				var data []byte
				add := func(t string) {
					short := t
					if len(t) <= 65535 {
						data = cat(data, b0str(t))
					} else {
						short = t[len(t)-300:]
					}
					data = cat(data, b0long(t), []byte{15}, b0long(t)[1:], []byte{3}, b0utf(short), []byte{5, 0, 0, 9}, []byte{8, 0, 0, 0, 1}, b0utf(short), []byte{5, 0, 0, 9},
						[]byte{16}, b0utf(short), []byte{0, 0, 9}, []byte{17}, b3str(t), []byte{17, 7}, b3utf(t))
				}
				if i < twoBytesN {
					add(twoBytes(i))
				} else {
					add(longContent(i-twoBytesN, 300))
					add(longContent(i-twoBytesN, 65540))
				}
				checkDec(c, false, data, extSetup, newRef(), 1000)
			}))
			ss = append(ss, chunked("words", fmt.Sprintf("%d well-known names as every kind of string, key and type name, with 6 values", len(words)), len(words), 8, func(c *Ctx, i int) {
				t := words[i]
				data := cat(b0str(t), b0long(t), []byte{15}, b0long(t)[1:], []byte{17}, b3str(t))
				for _, v := range [][]byte{b0num(3), b0str(t), {1, 1}, {5}, {6}, cat([]byte{8, 0, 0, 0, 1}, b0utf(t), b0str("q"), []byte{0, 0, 9}), cat([]byte{10, 0, 0, 0, 1}, b0str(t)), {11, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}} {
					kv := cat(b0utf(t), v, []byte{0, 0, 9})
					data = cat(data, []byte{3}, kv, []byte{8, 0, 0, 0, 1}, kv, []byte{16}, b0utf(t), kv, []byte{3}, b0utf("length"), b0num(1), kv)
				}
				checkDec(c, false, cat(data, b0str("end")), extSetup, newRef(), 1000)
			}))
			ss = append(ss, &Scenario{Name: "members", Note: "every object, typed object and associative array of up to 5 members named a or b (names repeat) with three kinds of value, followed by a reference to it and a string", Run: func(c *Ctx) {
				n := c.Choose(6)
				data := [][]byte{{3}, cat([]byte{16}, b0utf("T")), cat([]byte{8}, be32(c.Choose(2)*n))}[c.Choose(3)]
				for i := 0; i < n; i++ {
					data = cat(data, b0utf([]string{"a", "b"}[c.Choose(2)]), [][]byte{b0num(float64(i)), b0str("a"), {3, 0, 1, 'a', 5, 0, 0, 9}}[c.Choose(3)])
				}
				data = cat(data, []byte{0, 0, 9, 7, 0, 0}, b0str("z"))
				ref := newRef()
				checkDec(c, false, data, extSetup, ref, 1000)
				c.State(tableFP(ref))
			}})
			bigs := []int{300, 700, 66000}
			ss = append(ss, chunked("big-tables", "300, 700 and 66000 complex values, then a reference to every index up to one past the end (or to 65535), on one decoder", len(bigs), 1, func(c *Ctx, k int) {
				n := bigs[k]
				var data []byte
				for i := 0; i < n; i++ {
					switch i % 4 {
					case 0:
						data = append(data, cat([]byte{3, 0, 1, 'i'}, b0num(float64(i)), []byte{0, 0, 9})...)
					case 1:
						data = append(data, cat([]byte{10, 0, 0, 0, 1}, b0num(float64(i)))...)
					case 2:
						data = append(data, cat([]byte{16}, b0utf("T"), b0utf("i"), b0num(float64(i)), []byte{0, 0, 9})...)
					default:
						data = append(data, cat([]byte{8}, be32(9), b0utf("i"), b0num(float64(i)), []byte{0, 0, 9})...)
					}
				}
				for i := 0; i <= n && i <= 65535; i++ {
					data = append(data, 7, byte(i>>8), byte(i))
				}
				checkDec(c, false, data, extSetup, newRef(), 1<<30)
			}))
			cnts := []int{}
			for e := uint(5); e <= 17; e++ {
				cnts = append(cnts, 1<<e-1, 1<<e, 1<<e+1)
			}
			ss = append(ss, chunked("counts", fmt.Sprintf("%d counts around powers of two to 2^17 of members of objects, typed objects and associative arrays and of elements of strict arrays, followed by another value", len(cnts)), len(cnts)*4, 1, func(c *Ctx, k int) {
				n, kind := cnts[k/4], k%4
				b := [][]byte{{3}, {16, 0, 1, 'T'}, cat([]byte{8}, be32(n)), cat([]byte{10}, be32(n))}[kind]
				for i := 0; i < n; i++ {
					if kind < 3 {
						b = append(b, 0, 3, byte('a'+i>>14), byte('0'+i>>7&127), byte(1+i&127))
					}
					b = append(b, 1, byte(i&1))
				}
				if kind < 3 {
					b = append(b, 0, 0, 9)
				}
				checkDec(c, false, cat(b, b0str("z")), extSetup, newRef(), 10)
				c.State(k)
			}))
			ss = append(ss, sessions(false))
			// encoder output read by the reference reader, including the explicit encoders
			ss = append(ss, &Scenario{Name: "encoders", Note: "every sequence of 1..4 explicit encoder calls (undefined, unsupported, reference, associative, XML, AMF3, plain values) read back by the reference reader and by the library", Run: func(c *Ctx) {
				e := amf.NewEnDecAMF0()
				var w bytes.Buffer
				var wants []string
				var tbl []string
				n := 1 + c.Choose(pick(3, 4))
				for i := 0; i < n; i++ {
					before := w.Len()
					var k int
					var err error
					switch op := c.Choose(9 + len(tbl)); op {
					case 0:
						k, err = e.EncodeUndefined(&w)
						wants = append(wants, "null")
					case 1:
						k, err = e.EncodeUnsupported(&w)
						wants = append(wants, "null")
					case 2:
						k, err = e.EncodeXmlDocument(&w, "<x/>")
						wants = append(wants, "s4:<x/>")
					case 3:
						k, err = e.EncodeEcmaArray(&w, amf.Object{"e": "v"})
						wants = append(wants, "{1:e=s1:v,}")
						tbl = append(tbl, "{1:e=s1:v,}")
					case 4:
						k, err = e.EncodeWithAMF3(&w, amf.Array{7, "x"})
						wants = append(wants, "["+fnum(7)+",s1:x,]")
					case 5:
						k, err = e.Encode(&w, amf.Object{"o": 1})
						tbl = append(tbl, "{1:o="+fnum(1)+",}")
						wants = append(wants, tbl[len(tbl)-1])
					case 6:
						k, err = e.Encode(&w, amf.Array{true})
						tbl = append(tbl, "[true,]")
						wants = append(wants, tbl[len(tbl)-1])
					case 7:
						k, err = e.Encode(&w, amf.TypedObject{Type: "T", Object: amf.Object{"t": nil}})
						tbl = append(tbl, "T1:T{1:t=null,}")
						wants = append(wants, tbl[len(tbl)-1])
					case 8:
						k, err = e.Encode(&w, utc(3))
						wants = append(wants, fnum(3000))
					default:
						k, err = e.EncodeReference(&w, uint16(op-9))
						wants = append(wants, tbl[op-9])
					}
					c.Check(err == nil && k == w.Len()-before, "call %d: count %d, wrote %d, error %v", i, k, w.Len()-before, err)
				}
				c.Logf("encoder output %s", hx(w.Bytes()))
				ref := newRef()
				in := &refIn{b: w.Bytes()}
				dec := amf.NewEnDecAMF0()
				r := bytes.NewReader(w.Bytes())
				for i, want := range wants {
					v, st, why := refRun(func() interface{} { return ref.value(in) })
					c.Check(st == refOK && canonRef(v) == want, "encoder output %s: independent reader at value %d: %v %s, want %s", hx(w.Bytes()), i, st, why, want)
					got, err := dec.Decode(r)
					c.Check(err == nil && canon(got, true) == want, "encoder output %s: value %d decodes to %s error %v, want %s", hx(w.Bytes()), i, canon(got, true), err, want)
					c.Step(1)
				}
				c.Check(in.pos == w.Len(), "%d bytes written, %d read", w.Len(), in.pos)
				c.State(tableFP(ref))
			}})
			return ss
		},
	})
	register(&Prop{
		ID: "A04", Level: "model_checking",
		Rule:        "The reference AMF3 reader (explicit string, object and trait tables) is the model; every generated byte stream is run through the real decoder and each step's value, error and reader position compared with it. A state is a distinct content of the model's tables; a transition is one decoded value.",
		Assumptions: []string{"Cyclic references (to a value still being read) and externalizable traits with members are only required not to crash", "Dates are compared for whole milliseconds only", "Reference tables live as long as the decoder"},
		Build: func(th bool) []*Scenario {
			var ss []*Scenario
			run := func(mode byte, nodes, depth, maxVals int) func(c *Ctx) {
				return func(c *Ctx) {
					g := &g3{c: c, nodes: nodes, full: mode == 'f', lean: mode == 'l'}
					var data, emb []byte
					for i := 0; i < maxVals && g.nodes > 0; i++ {
						v := g.value(depth)
						data = append(data, v...)
						emb = append(append(emb, 17), v...)
						if i+1 < maxVals && g.nodes > 0 && !c.Bool() {
							break
						}
					}
					c.Logf("AMF3 stream %s", hx(data))
					ref := newRef()
					checkDec(c, true, data, extSetup, ref, 1000)
					c.State(tableFP(ref))
					c.Outcome(data)
					if maxVals == 1 || mode == 'l' && len(emb) > len(data)+1 {
						checkDec(c, false, emb, extSetup, newRef(), 1000)
					}
				}
			}
			n, m := pick(4, 5), pick(4, 5)
			ss = append(ss, &Scenario{Name: "grammar-lean", Note: fmt.Sprintf("every stream of 1..3 values with at most %d nodes, depth <= 3: integers, strings, byte arrays, arrays with associative parts, dynamic objects, array collections, and every string, object, array and trait reference incl. one past the end; several values are also read as values embedded in one AMF0 stream", n), Run: run('l', n, 3, 3)})
			ss = append(ss, &Scenario{Name: "grammar", Note: fmt.Sprintf("at most %d nodes, adding dates, XML, sealed and externalizable objects, and references of every kind to every entry incl. wrong kinds", m), Run: run('m', m, 3, 3)})
			ss = append(ss, &Scenario{Name: "grammar-wide", Note: "the full alphabet (all markers incl. unsupported and unknown ones) with at most 3 nodes, depth 2", Run: run('f', 3, 2, 3)})
			ss = append(ss, &Scenario{Name: "embedded", Note: "single values with at most 3 nodes, alone and inside AMF0", Run: run('f', 3, 2, 1)})
			ss = append(ss, chunked("very-long-batches", "batches of 100000 values of five kinds in turn, each 1, 7 or 1000 times in a row, decoded at once and one by one", 3, 1, func(c *Ctx, i int) {
				hold := []int{1, 7, 1000}[i]
				bs := [][]byte{[]byte{3}, []byte{1}, []byte{4, 7}, []byte{6, 3, 'x'}, []byte{2}}
				es := []interface{}{true, nil, uint32(7), "x", false}
				var data []byte
				var want []string
				for k := 0; k < 100000; k++ {
					data = append(data, bs[k/hold%5]...)
					want = append(want, canon(es[k/hold%5], true))
				}
				vs, err := amf.NewEnDecAMF3().DecodeBatch(bytes.NewReader(data))
				c.Check(err == nil && len(vs) == len(want), "batch of %d values: %d, %v", len(want), len(vs), err)
				d, r := amf.NewEnDecAMF3(), bytes.NewReader(data)
				for k := range want {
					v, err := d.Decode(r)
					c.Check(err == nil && canon(v, true) == want[k] && canon(vs[k], true) == want[k], "value %d is %v and in the batch %v, %v, want %s", k, v, vs[k], err, want[k])
				}
				c.Step(200000)
				c.Outcome(i)
			}))
			ss = append(ss, referred(true))
			ss = append(ss, chunked("tables", "n strings, n traits and n complex values of rotating kinds followed by references to every index 0..n+1, for n up to 140 (one- and two-byte indices)", 140, 1, func(c *Ctx, n int) {
				var pre []byte
				for i := 0; i < n; i++ {
					name := fmt.Sprintf("n%03d", i)
					switch i % 5 {
					case 0: // object with its own trait and one member
						pre = cat(pre, []byte{10}, u29(3|1<<4), b3utf(name), b3utf("p"+name), b3int(i))
					case 1:
						pre = cat(pre, []byte{9, 3, 1}, b3str(name))
					case 2:
						pre = cat(pre, []byte{12}, u29(uint32(len(name))<<1|1), []byte(name))
					case 3:
						pre = cat(pre, []byte{7}, u29(uint32(len(name))<<1|1), []byte(name))
					default:
						pre = cat(pre, []byte{8, 1}, b0num(float64(i) * 1000)[1:], b3str(name))
					}
				}
				for i := 0; i <= n+1; i++ {
					for _, k := range []byte{6, 7, 8, 9, 10, 12} {
						checkDec(c, true, cat(pre, []byte{k}, u29(uint32(i)<<1)), extSetup, newRef(), 1000)
					}
					ref := newRef()
					checkDec(c, true, cat(pre, []byte{10}, u29(uint32(i)<<2|1), b3int(5), b3int(6)), extSetup, ref, 1000)
					c.State(tableFP(ref))
				}
			}))
			ss = append(ss, chunked("traits", "sealed member counts 0..300, static and dynamic, reused by trait reference", 301*2, 8, func(c *Ctx, i int) {
				n, dyn := i/2, uint32(i&1)<<3
				b := cat([]byte{10}, u29(3|dyn|uint32(n)<<4), b3utf("Big"))
				var vals []byte
				for k := 0; k < n; k++ {
					b = cat(b, b3utf(fmt.Sprintf("m%d", k)))
					vals = cat(vals, b3int(k*1000))
				}
				if dyn != 0 {
					vals = cat(vals, b3utf("dyn"), []byte{3, 1})
				}
				data := cat(b, vals, []byte{10, 1}, vals)
				checkDec(c, true, data, extSetup, newRef(), 1000)
			}))
			ss = append(ss, &Scenario{Name: "handlers", Note: "1..3 objects of classes whose handlers return the next value as it is, nothing, two values, or a wrapped one, one inside another, with 9 values, followed by references to every table entry and to the class", Run: func(c *Ctx) {
				leaves := [][]byte{{1}, {2}, {3}, {4, 5}, b3str("s"), {9, 1, 1}, {10, 0x0b, 1, 1}, {12, 3, 7}, {6, 0}}
				var obj func(d int) []byte
				obj = func(d int) []byte {
					n := len(leaves)
					if d > 0 {
						n += 4
					}
					k := c.Choose(n)
					if k < len(leaves) {
						return leaves[k]
					}
					name := []string{"X", "plain", "nothing", "pair"}[k-len(leaves)]
					b := cat([]byte{10, 7}, b3utf(name))
					switch name {
					case "pair":
						return cat(b, obj(d-1), obj(0))
					case "nothing":
						return b
					}
					return cat(b, obj(d-1))
				}
				data := obj(2)
				for n := c.Choose(2); n > 0; n-- {
					data = cat(data, obj(1))
				}
				data = append(data, 10, byte(c.Choose(4))<<1)
				if c.Bool() {
					data = append(data, 10, 1, 3)
				}
				ref := newRef()
				checkDec(c, true, data, extSetup, ref, 1000)
				c.State(tableFP(ref))
			}})
			ss = append(ss, chunked("flag-bytes", "DSA and DSK messages whose first, second or third run of flag bytes has 1..40 bytes, all empty but the last, with a value at every bit", 40*3*7*2, 16, func(c *Ctx, i int) {
				n, at, bit, name := 1+i%40, i/40%3, i/120%7, []string{"DSA", "DSK"}[i/840]
				var body []byte
				for r := 0; r < 3; r++ {
					if r == 2 && name == "DSA" {
						break
					}
					if r != at {
						body = append(body, 0)
						continue
					}
					body = cat(body, bytes.Repeat([]byte{0x80}, n-1), []byte{1 << uint(bit)}, b3int(77))
				}
				checkDec(c, true, cat([]byte{10, 7}, b3utf(name), body, []byte{10, 0}), extSetup, newRef(), 1000)
			}))
			ss = append(ss, &Scenario{Name: "messages", Note: "DSA and DSK messages: all 128 values of the first flag byte x second flag byte {absent,0,1,2,3,5,127} x third {absent,1} x correlation flags {0,1,2,3,7,127, 0x81 then 1} x trailing DSK flags {0,1,3}", Run: func(c *Ctx) {
				dsk := c.Bool()
				f1 := byte(c.Choose(128))
				seconds := []int{-1, 0, 1, 2, 3, 5, 127}
				f2 := seconds[c.Choose(len(seconds))]
				f3 := -1
				if f2 >= 0 && c.Bool() {
					f3 = 1
				}
				n := 0
				val := func() []byte { n++; return b3int(n) }
				vals := func(f byte) (b []byte) {
					for i := 0; i < 7; i++ {
						if f>>i&1 == 1 {
							b = cat(b, val())
						}
					}
					return
				}
				var body []byte
				fs := []byte{f1}
				if f2 >= 0 {
					fs[0] |= 0x80
					fs = append(fs, byte(f2))
				}
				if f3 >= 0 {
					fs[1] |= 0x80
					fs = append(fs, byte(f3))
				}
				body = append(body, fs...)
				for _, f := range fs {
					body = cat(body, vals(f))
				}
				cor := [][]byte{{0}, {1}, {2}, {3}, {7}, {127}, {0x81, 1}}[c.Choose(7)]
				body = cat(body, cor)
				for _, f := range cor {
					body = cat(body, vals(f))
				}
				name := "DSA"
				if dsk {
					name = "DSK"
					f := []byte{0, 1, 3}[c.Choose(3)]
					body = cat(body, []byte{f}, vals(f))
				}
				data := cat([]byte{10, 7}, b3utf(name), body, []byte{10, 0}) // then a reference to it
				c.Logf("%s", hx(data))
				ref := newRef()
				checkDec(c, true, data, extSetup, ref, 1000)
				c.State(tableFP(ref))
			}})
			ss = append(ss, chunked("contents", "every content of one or two bytes, and 1032 contents of 300 and 65540 bytes, as string, XML document, byte array, associative key, sealed and dynamic member name and class name", twoBytesN+longContentN, 128, func(c *Ctx, i int) {
				var data []byte
				add := func(t string) {
					u := b3utf(t)
					data = cat(data, []byte{6}, u, []byte{7}, u, []byte{11}, u, []byte{12}, u, []byte{9, 1}, u, []byte{1, 1},
						[]byte{10, 0x13}, b3utf("c"), u, []byte{1}, []byte{10, 0x0b}, b3utf("d"), u, []byte{1, 1}, []byte{10, 3}, u)
				}
				if i < twoBytesN {
					add(twoBytes(i))
				} else {
					add(longContent(i-twoBytesN, 300))
					add(longContent(i-twoBytesN, 65540))
				}
				checkDec(c, true, data, extSetup, newRef(), 1000)
			}))
			ss = append(ss, chunked("words", fmt.Sprintf("%d well-known names as string, XML document, byte array, associative key, sealed and dynamic member name and class name of a plain object, with 7 values", len(words)), len(words), 8, func(c *Ctx, i int) {
				t := words[i]
				u := b3utf(t)
				data := cat([]byte{6}, u, []byte{7}, u, []byte{11}, u, []byte{12}, u)
				for _, v := range [][]byte{{4, 3}, cat([]byte{6}, u), {3}, {1}, cat([]byte{9, 1}, u, []byte{2, 1}), cat([]byte{10, 0x0b, 1}, u, []byte{4, 1, 1}), {8, 1, 0x42, 0x77, 0x48, 0x76, 0xe8, 0, 0, 0}} {
					data = cat(data, []byte{9, 3}, u, v, []byte{1}, v, []byte{10, 0x13}, b3utf("c"), u, v, []byte{10, 0x0b}, b3utf("d"), u, v, []byte{1}, []byte{10, 0x0b}, u, u, v, []byte{1}, []byte{10, 0x13}, u, u, v)
				}
				checkDec(c, true, cat(data, b3str("end")), extSetup, newRef(), 1000)
			}))
			ss = append(ss, &Scenario{Name: "members", Note: "every array and dynamic object of up to 4 members named a or b (names repeat, written out or as references) with three kinds of value, with and without a sealed member or element, followed by a reference to it and a string", Run: func(c *Ctx) {
				arr := c.Bool()
				extra := c.Choose(2)
				var data []byte
				if arr {
					data = cat([]byte{9}, u29(uint32(extra)<<1|1))
				} else {
					data = cat([]byte{10}, u29(uint32(extra)<<4|0xb), b3utf("C"))
					if extra == 1 {
						data = cat(data, b3utf("a"), []byte{4, 9})
					}
				}
				var strs []string
				if !arr {
					strs = append(strs, "C")
					if extra == 1 {
						strs = append(strs, "a")
					}
				}
				n := c.Choose(5)
				for i := 0; i < n; i++ {
					k := []string{"a", "b"}[c.Choose(2)]
					at := -1
					for j, t := range strs {
						if t == k {
							at = j
						}
					}
					if at >= 0 && c.Bool() {
						data = cat(data, u29(uint32(at)<<1))
					} else {
						data = cat(data, b3utf(k))
						strs = append(strs, k)
					}
					v := c.Choose(3)
					data = cat(data, [][]byte{{4, byte(i)}, {6, 3, 'v'}, {10, 0x0b, 1, 3, 'a', 1, 1}}[v])
					if v > 0 {
						strs = append(strs, []string{"v", "a"}[v-1])
					}
				}
				data = cat(data, []byte{1})
				if arr && extra == 1 {
					data = cat(data, []byte{4, 9})
				}
				data = cat(data, []byte{10, 0, 6, 3, 'z'})
				if arr {
					data[len(data)-5] = 9
				}
				ref := newRef()
				checkDec(c, true, data, extSetup, ref, 1000)
				c.State(tableFP(ref))
			}})
			bigs := []int{300, 17000, 66000}
			if th {
				bigs = append(bigs, 1<<20+2)
			}
			ss = append(ss, chunked("big-tables", "300, 17000 and 66000 (2^20 as well in the thorough tier) strings, byte arrays or class traits, then a reference to every index up to one past the end, on one decoder (one- to four-byte indices)", len(bigs)*3, 1, func(c *Ctx, k int) {
				n := bigs[k/3]
				var data []byte
				for i := 0; i < n; i++ {
					switch k % 3 {
					case 0:
						data = append(data, 6, 7, byte(i>>16), byte(i>>8), byte(i))
					case 1:
						data = append(data, 12, 7, byte(i>>16), byte(i>>8), byte(i))
					default:
						data = append(data, 10, 0x13, 1, 7, byte(i>>16), byte(i>>8), byte(i), 3)
					}
				}
				for i := 0; i <= n; i++ {
					switch k % 3 {
					case 0:
						data = append(data, cat([]byte{6}, u29(uint32(i)<<1))...)
					case 1:
						data = append(data, cat([]byte{12}, u29(uint32(i)<<1))...)
					default:
						data = append(data, cat([]byte{10}, u29(uint32(i)<<2|1), []byte{2})...)
					}
				}
				checkDec(c, true, data, extSetup, newRef(), 1<<30)
			}))
			kinds := []struct {
				n string
				f func(i int) []byte
			}{
				{"xml", func(i int) []byte { return []byte{7, 7, byte('a' + i>>14), byte('0' + i>>7&63), byte('0' + i&63)} }},
				{"xml2", func(i int) []byte { return []byte{11, 7, byte(i >> 14 & 63), byte(i >> 7 & 127), byte(i & 127)} }},
				{"date", func(i int) []byte {
					return cat([]byte{8, 1}, []byte{0x41, 0, 0, 0, 0, byte(i >> 16), byte(i >> 8), byte(i)})
				}},
				{"array", func(i int) []byte { return cat([]byte{9, 3, 1, 4}, u29(uint32(i))) }},
				{"associative", func(i int) []byte { return cat([]byte{9, 1, 3, 'k', 4}, u29(uint32(i)), []byte{1}) }},
				{"object", func(i int) []byte { return cat([]byte{10, 11, 1, 3, 'k', 4}, u29(uint32(i)), []byte{1}) }},
				{"collection", func(i int) []byte {
					return cat([]byte{10, 7, 67}, []byte("flex.messaging.io.ArrayCollection"), []byte{4}, u29(uint32(i)))
				}},
				{"message", func(i int) []byte {
					return cat([]byte{10, 7, 7}, []byte("DSA"), []byte{64, 4}, u29(uint32(i)), []byte{0})
				}},
			}
			kns := []int{100, 1100, 17000}
			ss = append(ss, chunked("mixed-tables", "100, 1100 and 17000 complex values, all of one of eight kinds or each kind in turn, then a reference to every index up to one past the end, with the marker of the entry's kind, on one decoder", (len(kinds)+1)*len(kns), 1, func(c *Ctx, k int) {
				n := kns[k%len(kns)]
				kd := k / len(kns)
				var data, refs []byte
				entries := 0
				for i := 0; i < n; i++ {
					kk := kinds[i%len(kinds)]
					if kd < len(kinds) {
						kk = kinds[kd]
					}
					b := kk.f(i)
					data = append(data, b...)
					refs = cat(refs, b[:1], u29(uint32(entries)<<1))
					entries++
				}
				refs = cat(refs, []byte{10}, u29(uint32(entries)<<1))
				checkDec(c, true, cat(data, refs), extSetup, newRef(), 1<<30)
				c.State(k)
			}))
			cnts := []int{}
			for e := uint(5); e <= 17; e++ {
				cnts = append(cnts, 1<<e-1, 1<<e, 1<<e+1)
			}
			ss = append(ss, chunked("counts", fmt.Sprintf("%d counts around powers of two to 2^17 of dense elements, associative members, dynamic members, sealed members, flag bytes of a message, and dense elements behind associative ones, followed by another value", len(cnts)), len(cnts)*6, 1, func(c *Ctx, k int) {
				n, kind := cnts[k/6], k%6
				key := func(i int) []byte { return []byte{7, byte('a' + i>>14), byte('0' + i>>7&127), byte(1 + i&127)} }
				var b []byte
				switch kind {
				case 0:
					b = cat([]byte{9}, u29(uint32(n)<<1|1), []byte{1}, bytes.Repeat([]byte{3}, n))
				case 1, 2:
					b = []byte{9, 1}
					if kind == 2 {
						b = []byte{10, 11, 1}
					}
					for i := 0; i < n; i++ {
						b = append(b, cat(key(i), []byte{4, byte(i & 127)})...)
					}
					b = append(b, 1)
				case 3:
					b = cat([]byte{10}, u29(uint32(n)<<4|3), []byte{1})
					for i := 0; i < n; i++ {
						b = append(b, key(i)...)
					}
					b = append(b, bytes.Repeat([]byte{2}, n)...)
				case 4:
					if n > 2000 {
						return
					}
					b = cat([]byte{10, 7, 7}, []byte("DSA"), bytes.Repeat([]byte{0xc0}, n-1), []byte{0x40})
					for i := 0; i < n; i++ {
						b = append(b, 4, byte(i&127))
					}
					b = append(b, 0)
				default:
					b = cat([]byte{9}, u29(uint32(n)<<1|1))
					for i := 0; i < 300; i++ {
						b = append(b, cat(key(i), []byte{1})...)
					}
					b = cat(b, []byte{1}, bytes.Repeat([]byte{4, 9}, n))
				}
				checkDec(c, true, cat(b, []byte{6, 3, 'z'}), extSetup, newRef(), 10)
				c.State(k)
			}))
			ss = append(ss, sessions(true))
			ss = append(ss, allBytes("bytes", "every byte string of length 0..6 (5 in the quick tier) over a 16-letter alphabet of markers, lengths and references", amf3Alpha, pick(5, 6), 3, func(c *Ctx, b []byte) {
				checkDec(c, true, b, extSetup, newRef(), 1000)
			}))
			return ss
		},
	})
}
