package main

import (
	"bytes"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/moggle-mog/goav/amf"
)

// aval is a value handed to an encoder, with what an independent reader must
// recover from its encoding, in canonical form.
type aval struct {
	v    interface{}
	c0   string // expected canonical form through AMF0
	c3   string // through AMF3
	name string
}

func mkNum(v interface{}, f float64) aval {
	return aval{v, fnum(f), fnum(f), fmt.Sprintf("%T(%v)", v, v)}
}

func mkStr(s string) aval {
	c := fmt.Sprintf("s%d:%s", len(s), s)
	return aval{s, c, c, "string " + qs(s)}
}

func mkTime(t time.Time) aval {
	return aval{t, fnum(float64(t.UnixMilli())), fmt.Sprintf("t%d", t.UnixMilli()), "time " + t.Format(time.RFC3339Nano)}
}

func mkBytes(b []byte) aval {
	var e bytes.Buffer
	e.WriteByte('[')
	for _, x := range b {
		e.WriteString(fnum(float64(x)))
		e.WriteByte(',')
	}
	e.WriteByte(']')
	return aval{b, e.String(), fmt.Sprintf("b%d:%s", len(b), b), fmt.Sprintf("%d bytes", len(b))}
}

func mkArr(v interface{}, es []aval) aval {
	c0, c3, n := "[", "[", "["
	for _, e := range es {
		c0 += e.c0 + ","
		c3 += e.c3 + ","
		n += e.name + ","
	}
	return aval{v, c0 + "]", c3 + "]", clip(n, 300) + "]"}
}

func mkArray(es []aval) aval {
	a := make(amf.Array, len(es))
	for i := range es {
		a[i] = es[i].v
	}
	return mkArr(a, es)
}

// mkObj builds an object from parallel sorted keys and values.
func mkObj(ks []string, es []aval) aval {
	o := amf.Object{}
	var c0, c3, n strings.Builder
	for i, k := range ks {
		o[k] = es[i].v
		fmt.Fprintf(&c0, "%d:%s=%s,", len(k), k, es[i].c0)
		fmt.Fprintf(&c3, "%d:%s=%s,", len(k), k, es[i].c3)
		if n.Len() < 300 {
			n.WriteString(qs(k) + ":" + es[i].name + ",")
		}
	}
	return aval{o, "{" + c0.String() + "}", "{" + c3.String() + "}", clip("{"+n.String(), 300) + "}"}
}

func mkTyped(typ string, ks []string, es []aval) aval {
	o := mkObj(ks, es)
	return aval{amf.TypedObject{Type: typ, Object: o.v.(amf.Object)}, fmt.Sprintf("T%d:%s", len(typ), typ) + o.c0, o.c3, "typed " + qs(typ) + o.name}
}

type (
	myString string
	myInt    int16
	myBool   bool
	myFloat  float32
)

// leafValues is the full alphabet of encodable scalars.
func leafValues() []aval {
	l := []aval{
		{nil, "null", "null", "nil"},
		{true, "true", "true", "true"}, {false, "false", "false", "false"},
		{myBool(true), "true", "true", "named bool"},
	}
	for _, f := range []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 1e300, -1e-300, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 1 << 53, 1<<53 + 2, 65535.5} {
		l = append(l, mkNum(f, f))
	}
	l = append(l, mkNum(float32(1.5), 1.5), mkNum(float32(0.1), float64(float32(0.1))), mkNum(myFloat(2.25), 2.25))
	for _, s := range []string{"", "a", "\x00\x00\x09", "\x00", "ab\x00", "\xff\xfe", "héllo", rep(127), rep(128), rep(255), rep(256), rep(16383), rep(16384), rep(32767), rep(32768), rep(65534), rep(65535), rep(65536), rep(65537), rep(131072)} {
		l = append(l, mkStr(s))
	}
	s := mkStr("named")
	s.v = myString("named")
	l = append(l, s)
	for _, t := range []time.Time{utc(0), utc(1), utc(-1), utc(1700000000), utc(-62135596800), utc(253402300799), ms(999), ms(-1), ms(-999), ms(-1001), ms(1600000000001), ms(-62135596799001), ms(253402300799999), time.Unix(1600000000, 500e6).In(time.FixedZone("x", 3600)), {}} {
		l = append(l, mkTime(t))
	}
	for _, n := range []int{0, 1, 2, 63, 64, 127, 128, 255, 256, 8191, 8192} {
		l = append(l, mkBytes(repBytes(n, n)))
	}
	l = append(l, mkBytes(nil), mkBytes([]byte{}))
	l = append(l,
		mkArr([]int{1, -2, 3}, []aval{mkNum(1, 1), mkNum(-2, -2), mkNum(3, 3)}),
		mkArr([2]string{"x", ""}, []aval{mkStr("x"), mkStr("")}),
		mkArr([]float64{}, nil), mkArr([0]int{}, nil), mkArr([]string(nil), nil),
		mkArr([]interface{}{nil, "q"}, []aval{{nil, "null", "null", ""}, mkStr("q")}),
		mkArr([][]int{{1}, {}}, []aval{mkArr([]int{1}, []aval{mkNum(1, 1)}), mkArr([]int{}, nil)}),
		mkArr([]bool{true, false}, []aval{{true, "true", "true", ""}, {false, "false", "false", ""}}),
		mkArr([]time.Time{utc(5)}, []aval{mkTime(utc(5))}),
		mkArr([]amf.Object{{"k": 1}}, []aval{mkObj([]string{"k"}, []aval{mkNum(1, 1)})}),
		mkArray(nil), mkObj(nil, nil), mkTyped("C", nil, nil),
		aval{amf.Object(nil), "{}", "{}", "nil object"}, aval{amf.Array(nil), "[]", "[]", "nil array"},
		aval{amf.TypedObject{}, "T0:{}", "{}", "zero typed object"},
	)
	l = append(l, intValues()...)
	return l
}

// intValues: every integer kind at and around every power of two.
func intValues() []aval {
	var l []aval
	l = append(l, mkNum(myInt(-300), -300))
	for k := uint(0); k < 64; k++ {
		for d := int64(-2); d <= 2; d++ {
			for _, sg := range []int64{1, -1} {
				x := sg*(int64(1)<<k) + d
				if k == 63 {
					x = math.MinInt64 + d + 2
				}
				l = append(l, mkNum(x, float64(x)), mkNum(int(x), float64(x)))
				if x >= math.MinInt32 && x <= math.MaxInt32 {
					l = append(l, mkNum(int32(x), float64(x)))
				}
				if x >= math.MinInt16 && x <= math.MaxInt16 {
					l = append(l, mkNum(int16(x), float64(x)))
				}
				if x >= -128 && x <= 127 {
					l = append(l, mkNum(int8(x), float64(x)))
				}
			}
			u := uint64(1)<<k + uint64(d)
			l = append(l, mkNum(u, float64(u)), mkNum(uint(u), float64(u)))
			if u <= math.MaxUint32 {
				l = append(l, mkNum(uint32(u), float64(u)))
			}
			if u <= math.MaxUint16 {
				l = append(l, mkNum(uint16(u), float64(u)))
			}
			if u <= 255 {
				l = append(l, mkNum(uint8(u), float64(u)))
			}
		}
	}
	return l
}

// smallLeaves is the reduced alphabet for trees.
func smallLeaves() []aval {
	return []aval{
		{nil, "null", "null", "nil"}, {true, "true", "true", "true"},
		mkNum(-3, -3), mkNum(2.5, 2.5), mkStr(""), mkStr("s"), mkStr("\x00\x00\x09"),
		mkTime(utc(1234567890)), mkBytes([]byte{0, 9}), mkStr(rep(65536)),
	}
}

// genVal enumerates value trees with at most *budget nodes.
func genVal(c *Ctx, leaves []aval, budget *int, depth int) aval {
	*budget--
	nk := len(leaves)
	if depth > 0 {
		nk += 4
	}
	k := c.Choose(nk)
	if k < len(leaves) {
		return leaves[k]
	}
	kids := func(max int) []aval {
		var es []aval
		for len(es) < max && *budget > 0 && c.Bool() {
			es = append(es, genVal(c, leaves, budget, depth-1))
		}
		return es
	}
	switch k - len(leaves) {
	case 0:
		return mkArray(kids(3))
	case 1:
		es := kids(2)
		return mkObj([]string{"k", "k2"}[:len(es)], es)
	case 2:
		es := kids(2)
		return mkTyped("Cls", []string{"a", "b"}[:len(es)], es)
	default:
		es := kids(2)
		vs := make([]interface{}, len(es))
		for i := range es {
			vs[i] = es[i].v
		}
		return mkArr(vs, es)
	}
}
