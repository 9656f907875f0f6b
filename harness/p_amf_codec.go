package main

import (
	"bytes"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/moggle-mog/goav/amf"
)

var trailer = []byte{0xde, 0xad, 0xbe}

// nonceWriter counts what it is given.
// duplex uses one codec object in both directions: every value it writes must be
// readable on its own, and every value it is given must be read as it stands,
// whatever it wrote or read before.
func duplex(amf3 bool) *Scenario {
	one, two := mkNum(1.5, 1.5), mkStr("v")
	ps := []aval{
		mkTyped("T", []string{"a"}, []aval{one}), mkTyped("T", []string{"b"}, []aval{two}), mkTyped("T", []string{"a", "b"}, []aval{one, two}),
		mkTyped("T", []string{"c", "d"}, []aval{two, one}), mkTyped("U", []string{"a"}, []aval{two}), mkTyped("T", nil, nil),
		mkObj([]string{"a"}, []aval{two}), mkObj([]string{"b"}, []aval{one}), mkObj([]string{"a"}, []aval{mkTyped("T", []string{"e"}, []aval{one})}),
		mkArray([]aval{mkTyped("T", []string{"a"}, []aval{two}), mkTyped("T", []string{"b"}, []aval{one})}), mkArray([]aval{one}), mkArray(nil),
		mkStr("v"), mkStr("a"), mkStr(""), mkTime(utc(7)), mkTime(utc(8)),
	}
	depth := pick(3, 4)
	bs := make([][]byte, len(ps))
	for i, v := range ps {
		var w bytes.Buffer
		if amf3 {
			amf.NewEnDecAMF3().Encode(&w, v.v)
		} else {
			amf.NewEnDecAMF0().Encode(&w, v.v)
		}
		bs[i] = w.Bytes()
	}
	return &Scenario{Name: "duplex", Note: fmt.Sprintf("one codec object writing or reading every sequence of 1..%d of %d values (classes of one name with different members, plain objects, arrays, strings, times)", depth, len(ps)), Run: func(c *Ctx) {
		e0, e3 := amf.NewEnDecAMF0(), amf.NewEnDecAMF3()
		n := 1 + c.Choose(depth)
		for i := 0; i < n; i++ {
			k := c.Choose(2 * len(ps))
			v := ps[k%len(ps)]
			switch {
			case k < len(ps) && amf3:
				c.Outcome(checkEnc3With(c, e3, v))
			case k < len(ps):
				c.Outcome(checkEnc0(c, e0, v, func(w io.Writer) (int, error) { return e0.Encode(w, v.v) }, v.c0))
			default:
				var d amf.Decoder = e0
				want := v.c0
				if amf3 {
					d, want = e3, v.c3
				}
				r := bytes.NewReader(bs[k%len(ps)])
				got, err := d.Decode(r)
				c.Check(err == nil && r.Len() == 0 && canon(got, true) == want, "reading %s: got %s, error %v, %d bytes left", v.name, canon(got, true), err, r.Len())
			}
			c.Step(1)
		}
		c.Eval(1)
	}}
}

func mapTries(v aval) int {
	// objects are encoded in Go's random map order: repeat so that both orders
	// of a two-member object are seen
	if strings.Contains(v.c0, "{") {
		return 4
	}
	return 1
}

// checkEnc0 encodes v with AMF0 and checks count, reference reading and the
// library's own reading; returns the bytes.
func checkEnc0(c *Ctx, enc *amf.EnDecAMF0, v aval, f func(io.Writer) (int, error), expect string) []byte {
	var w bytes.Buffer
	n, err := f(&w)
	c.Check(err == nil, "encoding %s: error %v", v.name, err)
	c.Check(n == w.Len(), "encoding %s: reported %d bytes, wrote %d", v.name, n, w.Len())
	in := &refIn{b: w.Bytes()}
	d := &ref0Dec{}
	rv, st, why := refRun(func() interface{} { return d.value(in) })
	c.Check(st == refOK, "encoding %s: an independent reader refuses %s: %v (%s)", v.name, hx(w.Bytes()), st, why)
	c.Check(in.pos == w.Len(), "encoding %s: an independent reader consumes %d of %d bytes", v.name, in.pos, w.Len())
	c.Check(canonRef(rv) == expect, "encoding %s: an independent reader gets %s, want %s", v.name, qs(canonRef(rv)), qs(expect))
	r := bytes.NewReader(append(w.Bytes()[:w.Len():w.Len()], trailer...))
	got, err := amf.NewEnDecAMF0().Decode(r)
	c.Check(err == nil, "decoding %s (%s): %v", v.name, hx(w.Bytes()), err)
	c.Check(r.Len() == len(trailer), "decoding %s: %d bytes left after the value, want %d", v.name, r.Len(), len(trailer))
	c.Check(canon(got, false) == expect, "decoding %s: got %s, want %s", v.name, qs(canon(got, false)), qs(expect))
	c.Eval(1)
	return w.Bytes()
}

func checkEnc3(c *Ctx, v aval) []byte { return checkEnc3With(c, amf.NewEnDecAMF3(), v) }

func checkEnc3With(c *Ctx, e *amf.EnDecAMF3, v aval) []byte {
	var w bytes.Buffer
	n, err := e.Encode(&w, v.v)
	c.Check(err == nil, "encoding %s: error %v", v.name, err)
	c.Check(n == w.Len(), "encoding %s: reported %d bytes, wrote %d", v.name, n, w.Len())
	in := &refIn{b: w.Bytes()}
	d := &ref3{}
	rv, st, why := refRun(func() interface{} { return d.value(in) })
	c.Check(st == refOK, "encoding %s: an independent reader refuses %s: %v (%s)", v.name, hx(w.Bytes()), st, why)
	c.Check(in.pos == w.Len(), "encoding %s: an independent reader consumes %d of %d bytes", v.name, in.pos, w.Len())
	c.Check(canonRef(rv) == v.c3, "encoding %s: an independent reader gets %s, want %s", v.name, qs(canonRef(rv)), qs(v.c3))
	r := bytes.NewReader(append(w.Bytes()[:w.Len():w.Len()], trailer...))
	got, err := amf.NewEnDecAMF3().Decode(r)
	c.Check(err == nil, "decoding %s (%s): %v", v.name, hx(w.Bytes()), err)
	c.Check(r.Len() == len(trailer), "decoding %s: %d bytes left after the value, want %d", v.name, r.Len(), len(trailer))
	c.Check(canon(got, true) == v.c3, "decoding %s: got %s, want %s", v.name, qs(canon(got, true)), qs(v.c3))
	c.Eval(1)
	return w.Bytes()
}

func roundtrip0(c *Ctx, v aval) {
	for i := mapTries(v); i > 0; i-- {
		e := amf.NewEnDecAMF0()
		b := checkEnc0(c, e, v, func(w io.Writer) (int, error) { return e.Encode(w, v.v) }, v.c0)
		c.Outcome(b)
	}
}

// embedded3 checks an AMF3 value inside an AMF0 stream.
func embedded3(c *Ctx, v aval) {
	e := amf.NewEnDecAMF0()
	var w bytes.Buffer
	n, err := e.EncodeWithAMF3(&w, v.v)
	c.Check(err == nil && n == w.Len(), "embedding %s: count %d, wrote %d, error %v", v.name, n, w.Len(), err)
	_, err = e.Encode(&w, "after")
	c.Check(err == nil, "encoding after: %v", err)
	r := bytes.NewReader(w.Bytes())
	d := amf.NewEnDecAMF0()
	got, err := d.Decode(r)
	c.Check(err == nil && canon(got, true) == v.c3, "decoding embedded %s: got %s error %v, want %s", v.name, qs(canon(got, true)), err, qs(v.c3))
	got, err = d.Decode(r)
	c.Check(err == nil && canon(got, false) == "s5:after", "decoding the AMF0 value after embedded %s: %v %v", v.name, got, err)
	c.Eval(1)
}

func lengths(max int) []int {
	m := map[int]bool{}
	for i := 0; i <= 300; i++ {
		m[i] = true
	}
	for k := 1; k <= max; k *= 2 {
		for d := -2; d <= 2; d++ {
			if k+d >= 0 && k+d <= max {
				m[k+d] = true
			}
		}
	}
	m[max] = true
	var l []int
	for i := range m {
		l = append(l, i)
	}
	sort.Ints(l)
	return l
}

// genSeq: 1..max values from a leaf set, as a stream.
func seqScenario(name string, amf3 bool, pool func() []aval, max int) *Scenario {
	ps := pool()
	return &Scenario{Name: name, Note: fmt.Sprintf("all sequences of 1..%d values over %d values on one stream, decoded singly and as a batch", max, len(ps)), Run: func(c *Ctx) {
		n := 1 + c.Choose(max)
		var vs []aval
		var args []interface{}
		for i := 0; i < n; i++ {
			v := ps[c.Choose(len(ps))]
			vs = append(vs, v)
			args = append(args, v.v)
		}
		c.Logf("stream of %d values: %v", n, func() (s []string) {
			for _, v := range vs {
				s = append(s, v.name)
			}
			return
		}())
		var enc amf.Encoder = amf.NewEnDecAMF0()
		mk := func() amf.Decoder { return amf.NewEnDecAMF0() }
		want := func(v aval) string { return v.c0 }
		if amf3 {
			enc = amf.NewEnDecAMF3()
			mk = func() amf.Decoder { return amf.NewEnDecAMF3() }
			want = func(v aval) string { return v.c3 }
		}
		var w1, w2 bytes.Buffer
		tot := 0
		for _, a := range args {
			k, err := enc.Encode(&w1, a)
			c.Check(err == nil, "encode: %v", err)
			tot += k
		}
		c.Check(tot == w1.Len(), "reported %d bytes in total, wrote %d", tot, w1.Len())
		c.Check(enc.EncodeBatch(&w2, args...) == nil, "EncodeBatch failed")
		for _, data := range [][]byte{w1.Bytes(), w2.Bytes()} {
			dec := mk()
			r := bytes.NewReader(data)
			for i, v := range vs {
				got, err := dec.Decode(r)
				c.Check(err == nil && canon(got, amf3) == want(v), "value %d of the stream: got %s error %v, want %s", i, qs(canon(got, amf3)), err, qs(want(v)))
			}
			_, err := dec.Decode(r)
			c.Check(err == io.EOF, "after the last value Decode returned error %v, want EOF", err)
			got, err := mk().DecodeBatch(bytes.NewReader(data))
			c.Check(err == nil && len(got) == n, "batch: %d values, error %v, want %d", len(got), err, n)
			for i, v := range vs {
				c.Check(canon(got[i], amf3) == want(v), "batch value %d: got %s, want %s", i, qs(canon(got[i], amf3)), qs(want(v)))
			}
		}
		c.Step(n)
		c.Eval(2)
		c.Outcome(w1.Bytes())
	}}
}

// chunked turns an index sweep 0..n-1 into leaves of `size` evaluations.
func chunked(name, note string, n, size int, f func(c *Ctx, i int)) *Scenario {
	k := (n + size - 1) / size
	return &Scenario{Name: name, Note: note, Run: func(c *Ctx) {
		j := 0
		if k > 0 {
			j = c.Choose(k)
		}
		for i := j * size; i < (j+1)*size && i < n; i++ {
			i := i
			if p := try(func() { f(c, i) }); p != nil {
				c.Fail("case %d: panic: %v", i, p)
			}
			c.Eval(1)
		}
	}}
}

func nest(v aval, depth, kind int) aval {
	for i := 0; i < depth; i++ {
		k := kind
		if kind == 3 {
			k = i % 3
		}
		switch k {
		case 0:
			v = aval{amf.Array{v.v}, "[" + v.c0 + ",]", "[" + v.c3 + ",]", "nested array"}
		case 1:
			v = aval{amf.Object{"k": v.v}, "{1:k=" + v.c0 + ",}", "{1:k=" + v.c3 + ",}", "nested object"}
		default:
			v = aval{amf.TypedObject{Type: "C", Object: amf.Object{"k": v.v}}, "T1:C{1:k=" + v.c0 + ",}", "{1:k=" + v.c3 + ",}", "nested typed object"}
		}
	}
	return v
}

func init() {
	register(&Prop{
		ID: "A01", Level: "exploration",
		Rule:        "Each evaluation encodes one value with the real AMF0 encoder and checks the reported count, an independent AMF0 reader's reading of the bytes, and the library's own decoding including the reader position. Distinct outcomes are distinct byte encodings.",
		Assumptions: []string{"Object members are written in Go's map order; objects with two members are encoded several times so both orders are seen", "Values nest at most 1000 deep"},
		Build: func(th bool) []*Scenario {
			leaves := leafValues()
			small := smallLeaves()
			var ss []*Scenario
			ss = append(ss, chunked("leaves", "every scalar of the boundary alphabet, every integer kind around every power of two", len(leaves), 8, func(c *Ctx, i int) {
				c.Logf("value %s", leaves[i].name)
				roundtrip0(c, leaves[i])
			}))
			ss = append(ss, placed(false, leaves))
			nodes, depth := pick(5, 6), pick(3, 4)
			tl := small
			if !th {
				tl = small[:9]
			}
			ss = append(ss, &Scenario{Name: "trees", Note: fmt.Sprintf("every value tree of at most %d nodes and depth %d over %d leaf values and four composite kinds", nodes, depth, len(tl)), Run: func(c *Ctx) {
				b := nodes
				v := genVal(c, tl, &b, depth)
				c.Logf("value %s", v.name)
				roundtrip0(c, v)
			}})
			ss = append(ss, &Scenario{Name: "ecma", Note: "every associative object with 0..3 members over the reduced alphabet, through EncodeEcmaArray", Run: func(c *Ctx) {
				n := c.Choose(4)
				var es []aval
				for i := 0; i < n; i++ {
					es = append(es, small[c.Choose(len(small))])
				}
				v := mkObj([]string{"", "x", "y", "z"}[1:n+1], es)
				e := amf.NewEnDecAMF0()
				b := checkEnc0(c, e, v, func(w io.Writer) (int, error) { return e.EncodeEcmaArray(w, v.v.(amf.Object)) }, v.c0)
				c.Outcome(b)
			}})
			max := pick(66000, 140000)
			ss = append(ss, chunked("string-lengths", fmt.Sprintf("every string length 0..%d (short, long and XML forms)", max), max+1, 100, func(c *Ctx, n int) {
				v := mkStr(rep(n))
				roundtrip0(c, v)
				e := amf.NewEnDecAMF0()
				checkEnc0(c, e, v, func(w io.Writer) (int, error) { return e.EncodeXmlDocument(w, v.v.(string)) }, v.c0)
			}))
			kl := lengths(70000)
			if th {
				kl = nil
				for i := 0; i <= 66000; i++ {
					kl = append(kl, i)
				}
			}
			ss = append(ss, chunked("key-lengths", "key and type-name lengths 0..300 and around every power of two to 70000 (all of 0..66000 in the thorough tier); unrepresentable ones must be refused", len(kl), 4, func(c *Ctx, i int) {
				n := kl[i]
				k := rep(n)
				bad := n == 0 || n > 65535
				e := amf.NewEnDecAMF0()
				v := mkObj([]string{k}, []aval{mkNum(1, 1)})
				f := []func(io.Writer) (int, error){
					func(w io.Writer) (int, error) { return e.Encode(w, v.v) },
					func(w io.Writer) (int, error) { return e.EncodeEcmaArray(w, v.v.(amf.Object)) },
				}
				for _, g := range f {
					if bad {
						_, err := g(io.Discard)
						c.Check(err != nil, "key of %d bytes accepted", n)
					} else {
						checkEnc0(c, e, v, g, v.c0)
					}
				}
				t := mkTyped(k, []string{"m"}, []aval{mkStr("v")})
				if n > 65535 {
					_, err := e.Encode(io.Discard, t.v)
					c.Check(err != nil, "type name of %d bytes accepted", n)
				} else {
					roundtrip0(c, t)
				}
			}))
			cl := append(lengths(pick(20000, 140000)), 65533, 65535, 65536, 65537, 65540)
			ss = append(ss, chunked("widths", "arrays, objects, associative objects and batches with 0..300 members and counts around every power of two to 2^16", len(cl), 2, func(c *Ctx, i int) {
				n := cl[i]
				es := make([]aval, n)
				ks := make([]string, n)
				args := make([]interface{}, n)
				for j := range es {
					es[j] = aval{j, fnum(float64(j)), fnum(float64(j)), ""}
					ks[j] = fmt.Sprintf("k%06d", j)
					args[j] = j
				}
				if n <= 5000 || n > 65000 && n <= 65540 {
					roundtrip0(c, mkObj(ks, es))
				}
				var sb strings.Builder
				sb.WriteByte('[')
				for j := range es {
					sb.WriteString(es[j].c0)
					sb.WriteByte(',')
				}
				sb.WriteByte(']')
				roundtrip0(c, aval{args, sb.String(), sb.String(), fmt.Sprintf("array of %d", n)})
				var w bytes.Buffer
				e := amf.NewEnDecAMF0()
				c.Check(e.EncodeBatch(&w, args...) == nil, "batch of %d", n)
				got, err := amf.NewEnDecAMF0().DecodeBatch(&w)
				c.Check(err == nil && len(got) == n && canon(amf.Array(got), false) == sb.String(), "batch of %d came back as %d values, %v", n, len(got), err)
			}))
			ss = append(ss, chunked("depths", "nesting depths 0..1000 of arrays, objects, typed objects and an alternation", 1001*4, 4, func(c *Ctx, i int) {
				roundtrip0(c, nest(mkStr("x"), i/4, i%4))
			}))
			ss = append(ss, chunked("contents", "every string of one or two bytes as string, XML document, object key, associative key and type name", twoBytesN, 128, func(c *Ctx, i int) {
				t := twoBytes(i)
				v := mkStr(t)
				roundtrip0(c, v)
				e := amf.NewEnDecAMF0()
				checkEnc0(c, e, v, func(w io.Writer) (int, error) { return e.EncodeXmlDocument(w, t) }, v.c0)
				o := mkObj([]string{t}, []aval{v})
				checkEnc0(c, e, o, func(w io.Writer) (int, error) { return e.Encode(w, o.v) }, o.c0)
				checkEnc0(c, e, o, func(w io.Writer) (int, error) { return e.EncodeEcmaArray(w, o.v.(amf.Object)) }, o.c0)
				ty := mkTyped(t, nil, nil)
				checkEnc0(c, e, ty, func(w io.Writer) (int, error) { return e.Encode(w, ty.v) }, ty.c0)
			}))
			ss = append(ss, chunked("words", fmt.Sprintf("%d well-known names (of RTMP, FLV, AMF, Flex and ECMAScript, in other cases, cut and extended) as string, XML document, type name and key with 9 values", len(words)), len(words), 8, func(c *Ctx, i int) {
				e := amf.NewEnDecAMF0()
				t := words[i]
				roundtrip0(c, mkStr(t))
				checkEnc0(c, e, mkStr(t), func(w io.Writer) (int, error) { return e.EncodeXmlDocument(w, t) }, mkStr(t).c0)
				for _, v := range wordValues(t) {
					o := mkObj([]string{t}, []aval{v})
					checkEnc0(c, e, o, func(w io.Writer) (int, error) { return e.Encode(w, o.v) }, o.c0)
					checkEnc0(c, e, o, func(w io.Writer) (int, error) { return e.EncodeEcmaArray(w, o.v.(amf.Object)) }, o.c0)
					ty := mkTyped(t, []string{t}, []aval{v})
					checkEnc0(c, e, ty, func(w io.Writer) (int, error) { return e.Encode(w, ty.v) }, ty.c0)
					ty = mkTyped("T", []string{t}, []aval{v})
					roundtrip0(c, ty)
				}
			}))
			ss = append(ss, chunked("long-contents", "strings of 300 and 65540 bytes (plain and XML), keys and type names of 300 bytes: every byte value first, in the middle, last and throughout, and eight multi-byte patterns", longContentN, 4, func(c *Ctx, i int) {
				e := amf.NewEnDecAMF0()
				for _, n := range []int{300, 65540} {
					t := longContent(i, n)
					v := mkStr(t)
					checkEnc0(c, e, v, func(w io.Writer) (int, error) { return e.Encode(w, t) }, v.c0)
					checkEnc0(c, e, v, func(w io.Writer) (int, error) { return e.EncodeXmlDocument(w, t) }, v.c0)
					if n == 300 {
						ty := mkTyped(t, []string{t}, []aval{v})
						checkEnc0(c, e, ty, func(w io.Writer) (int, error) { return e.Encode(w, ty.v) }, ty.c0)
					}
				}
			}))
			ss = append(ss, duplex(false))
			ss = append(ss, seqScenario("streams", false, func() []aval {
				p := append([]aval{}, small...)
				return append(p, mkArray([]aval{small[0], small[3]}), mkObj([]string{"a"}, []aval{mkTime(utc(7))}), mkTyped("T", []string{"a"}, []aval{mkStr("")}))
			}, pick(3, 4)))
			ss = append(ss, chunked("floats", "both signs, every exponent, 8 mantissas", 2*2048*8, 256, func(c *Ctx, i int) {
				f := floatCase(i)
				roundtrip0(c, mkNum(f, f))
			}))
			ss = append(ss, chunked("times", "seconds and milliseconds around every power of two, both signs; every fraction of a second on either side of the epoch and far from it", 2*45*5+2*50*5+5000, 64, func(c *Ctx, i int) {
				roundtrip0(c, mkTime(timeVal(i, 45)))
			}))
			ss = append(ss, huge(false))
			return ss
		},
	})
	register(&Prop{
		ID: "A03", Level: "exploration",
		Rule:        "Each evaluation encodes one value with the real AMF3 encoder and checks the reported count, an independent AMF3 reader's reading of the bytes, and the library's own decoding including the reader position, alone and embedded in AMF0. Distinct outcomes are distinct byte encodings.",
		Assumptions: []string{"64-bit integers are compared as doubles, which is how AMF3 can carry them", "Values nest at most 1000 deep"},
		Build: func(th bool) []*Scenario {
			leaves := leafValues()
			small := smallLeaves()
			var ss []*Scenario
			ss = append(ss, chunked("leaves", "every scalar of the boundary alphabet, every integer kind around every power of two", len(leaves), 8, func(c *Ctx, i int) {
				c.Logf("value %s", leaves[i].name)
				c.Outcome(checkEnc3(c, leaves[i]))
				embedded3(c, leaves[i])
			}))
			ss = append(ss, placed(true, leaves))
			nodes, depth := pick(5, 6), pick(3, 4)
			ss = append(ss, &Scenario{Name: "trees", Note: fmt.Sprintf("every value tree of at most %d nodes and depth %d", nodes, depth), Run: func(c *Ctx) {
				b := nodes
				v := genVal(c, small[:9], &b, depth)
				c.Logf("value %s", v.name)
				c.Outcome(checkEnc3(c, v))
				embedded3(c, v)
			}})
			max := pick(66000, 140000)
			ss = append(ss, chunked("string-lengths", fmt.Sprintf("every string and byte-slice length 0..%d", max), max+1, 100, func(c *Ctx, n int) {
				checkEnc3(c, mkStr(rep(n)))
				b := repBytes(n, n)
				checkEnc3(c, aval{b, "", fmt.Sprintf("b%d:%s", n, b), fmt.Sprintf("%d bytes", n)})
			}))
			big := []int{1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<21 - 1, 1 << 21, 1<<21 + 1}
			ss = append(ss, chunked("big-lengths", "strings and byte slices around 2^20 and 2^21 bytes (three- and four-byte length fields)", len(big), 1, func(c *Ctx, i int) {
				checkEnc3(c, mkStr(rep(big[i])))
				b := repBytes(big[i], 1)
				checkEnc3(c, aval{b, "", fmt.Sprintf("b%d:%s", len(b), b), "bytes"})
			}))
			kl := lengths(70000)
			ss = append(ss, chunked("key-lengths", "key and type-name lengths 0..300 and around every power of two to 70000", len(kl), 4, func(c *Ctx, i int) {
				checkEnc3(c, mkObj([]string{rep(kl[i])}, []aval{mkNum(1, 1)}))
				checkEnc3(c, mkTyped(rep(kl[i]), []string{"m"}, []aval{mkStr("v")}))
			}))
			cl := append(lengths(pick(20000, 140000)), 65533, 65535, 65536, 65537, 65540)
			ss = append(ss, chunked("widths", "arrays, objects and batches with 0..300 members and counts around every power of two to 2^16", len(cl), 2, func(c *Ctx, i int) {
				n := cl[i]
				es := make([]aval, n)
				ks := make([]string, n)
				args := make([]interface{}, n)
				var sb strings.Builder
				sb.WriteByte('[')
				for j := range es {
					es[j] = aval{j, "", fnum(float64(j)), ""}
					ks[j] = fmt.Sprintf("k%06d", j)
					args[j] = j
					sb.WriteString(es[j].c3)
					sb.WriteByte(',')
				}
				sb.WriteByte(']')
				if n <= 5000 || n > 65000 && n <= 65540 {
					checkEnc3(c, mkObj(ks, es))
				}
				checkEnc3(c, aval{args, "", sb.String(), fmt.Sprintf("array of %d", n)})
				var w bytes.Buffer
				e := amf.NewEnDecAMF3()
				c.Check(e.EncodeBatch(&w, args...) == nil, "batch of %d", n)
				got, err := amf.NewEnDecAMF3().DecodeBatch(&w)
				c.Check(err == nil && len(got) == n && canon(amf.Array(got), true) == sb.String(), "batch of %d came back as %d values, %v", n, len(got), err)
			}))
			ss = append(ss, chunked("depths", "nesting depths 0..1000 of arrays, objects, typed objects and an alternation", 1001*4, 4, func(c *Ctx, i int) {
				checkEnc3(c, nest(mkStr("x"), i/4, i%4))
			}))
			ss = append(ss, chunked("contents", "every string of one or two bytes as string, byte array, object key and type name", twoBytesN, 128, func(c *Ctx, i int) {
				t := twoBytes(i)
				checkEnc3(c, mkStr(t))
				b := []byte(t)
				checkEnc3(c, aval{b, "", fmt.Sprintf("b%d:%s", len(b), b), "bytes " + hx(b)})
				checkEnc3(c, mkTyped(t, []string{t}, []aval{mkStr(t)}))
			}))
			ss = append(ss, chunked("words", fmt.Sprintf("%d well-known names (of RTMP, FLV, AMF, Flex and ECMAScript, in other cases, cut and extended) as string, byte array, type name and key with 9 values", len(words)), len(words), 8, func(c *Ctx, i int) {
				t := words[i]
				checkEnc3(c, mkStr(t))
				b := []byte(t)
				checkEnc3(c, aval{b, "", fmt.Sprintf("b%d:%s", len(b), b), "bytes " + t})
				for _, v := range wordValues(t) {
					checkEnc3(c, mkObj([]string{t}, []aval{v}))
					checkEnc3(c, mkTyped(t, []string{t}, []aval{v}))
					checkEnc3(c, mkTyped("T", []string{t}, []aval{v}))
				}
			}))
			ss = append(ss, chunked("long-contents", "strings and byte slices of 300 and 65540 bytes, keys and type names of 300 bytes: every byte value first, in the middle, last and throughout, and eight multi-byte patterns", longContentN, 4, func(c *Ctx, i int) {
				for _, n := range []int{300, 65540} {
					t := longContent(i, n)
					checkEnc3(c, mkStr(t))
					b := []byte(t)
					checkEnc3(c, aval{b, "", "b" + fmt.Sprint(n) + ":" + t, "long bytes"})
					if n == 300 {
						checkEnc3(c, mkTyped(t, []string{t}, []aval{mkStr(t)}))
					}
				}
			}))
			ss = append(ss, duplex(true))
			ss = append(ss, seqScenario("streams", true, func() []aval {
				p := append([]aval{}, small...)
				return append(p, mkArray([]aval{small[0], small[3]}), mkObj([]string{"a"}, []aval{mkTime(utc(7))}), mkTyped("T", []string{"a"}, []aval{mkStr("")}), mkNum(1<<28, 1<<28))
			}, pick(3, 4)))
			ss = append(ss, chunked("floats", "both signs, every exponent, 8 mantissas", 2*2048*8, 256, func(c *Ctx, i int) {
				f := floatCase(i)
				checkEnc3(c, mkNum(f, f))
			}))
			ss = append(ss, chunked("times", "seconds and milliseconds around every power of two, both signs; every fraction of a second on either side of the epoch and far from it", 2*43*5+2*50*5+5000, 64, func(c *Ctx, i int) {
				checkEnc3(c, mkTime(timeVal(i, 43)))
			}))
			ss = append(ss, huge(true))
			return ss
		},
	})
}

// huge encodes and decodes single values of many megabytes.
func huge(amf3 bool) *Scenario {
	sizes := []int{1<<20 + 1, 1<<22 + 1, 1<<24 - 1, 1<<24 + 1, 1 << 25, 1<<26 + 1}
	if pick(0, 1) == 1 {
		sizes = append(sizes, 1<<27+1, 1<<28-1)
	}
	kinds := 3
	if amf3 {
		kinds = 4
	}
	return chunked("huge-values", fmt.Sprintf("values of %d sizes from 1 MB to 64 MB (256 MB in the thorough tier): a string, the only member of an object, an array of up to a million numbers%s, encoded, followed by another value and decoded", len(sizes), map[bool]string{true: ", a byte array; all of them in AMF0 as well"}[amf3]), len(sizes)*kinds, 1, func(c *Ctx, i int) {
		n, kind := sizes[i/kinds], i%kinds
		var v interface{}
		switch kind {
		case 0:
			v = rep(n)
		case 1:
			v = amf.Object{"k": rep(n)}
		case 2:
			a := make(amf.Array, n>>6)
			for k := range a {
				a[k] = float64(k) + 0.5
			}
			v = a
		default:
			v = []byte(rep(n))
		}
		for mode := 0; mode < 2; mode++ {
			var w bytes.Buffer
			var m int
			var err error
			var dec amf.Decoder
			switch {
			case !amf3 && mode == 0:
				e := amf.NewEnDecAMF0()
				m, err = e.Encode(&w, v)
				dec = e
			case !amf3:
				return
			case mode == 0:
				e := amf.NewEnDecAMF3()
				m, err = e.Encode(&w, v)
				dec = e
			default:
				e := amf.NewEnDecAMF0()
				m, err = e.EncodeWithAMF3(&w, v)
				dec = e
			}
			c.Check(err == nil, "value %d of %d bytes: %v", kind, n, err)
			c.Check(m == w.Len(), "value %d of %d bytes: %d bytes reported, %d written", kind, n, m, w.Len())
			w.WriteByte(5)
			if amf3 && mode == 0 {
				w.Truncate(m)
				w.WriteByte(1)
			}
			got, err := dec.Decode(&w)
			c.Check(err == nil, "value %d of %d bytes: %v", kind, n, err)
			c.Check(w.Len() == 1, "value %d of %d bytes: %d bytes left behind it", kind, n, w.Len()-1)
			same := false
			switch kind {
			case 0:
				same = got == v
			case 1:
				o, ok := got.(amf.Object)
				same = ok && len(o) == 1 && o["k"] == v.(amf.Object)["k"]
			case 2:
				same = canon(got, amf3) == canon(v, amf3)
			default:
				b, ok := got.([]byte)
				same = ok && bytes.Equal(b, v.([]byte))
			}
			c.Check(same, "value %d of %d bytes comes back different", kind, n)
			c.Step(1)
			c.Eval(1)
		}
		c.Outcome(i)
	})
}
