package main

import (
	"fmt"
	"io"

	"github.com/moggle-mog/goav/amf"
)

// placements of a value inside other values
const placeN = 10

func place(v aval, k int) aval {
	x := mkStr("x")
	switch k {
	case 0:
		return mkArray([]aval{v})
	case 1:
		return mkArray([]aval{x, v, x})
	case 2:
		return mkObj([]string{"k"}, []aval{v})
	case 3:
		return mkObj([]string{"j", "k", "l"}, []aval{x, v, x})
	case 4:
		return mkTyped("C", []string{"k"}, []aval{v})
	case 5:
		return mkTyped("", []string{"j", "k"}, []aval{v, v})
	case 6:
		return mkArr([]interface{}{v.v, v.v}, []aval{v, v})
	case 7:
		return mkArr([1]interface{}{v.v}, []aval{v})
	case 8:
		return mkObj([]string{"k"}, []aval{mkArray([]aval{v, v})})
	default:
		return mkArray([]aval{mkObj([]string{"k"}, []aval{v}), mkTyped("C", []string{"k"}, []aval{v})})
	}
}

func placed(amf3 bool, leaves []aval) *Scenario {
	return chunked("placed", "every scalar of the boundary alphabet in each of 10 places: element of arrays of three kinds, member of plain and typed objects, alone, between others, twice, and one level further down", len(leaves)*placeN, 32, func(c *Ctx, i int) {
		v := leaves[i/placeN]
		if len(v.c3) > 9000 && i%placeN > 4 {
			return
		}
		p := place(v, i%placeN)
		c.Logf("value %s", p.name)
		if amf3 {
			checkEnc3(c, p)
			return
		}
		roundtrip0(c, p)
		if o, is := p.v.(amf.Object); is {
			e := amf.NewEnDecAMF0()
			checkEnc0(c, e, p, func(w io.Writer) (int, error) { return e.EncodeEcmaArray(w, o) }, p.c0)
		}
	})
}

// referable3 lists encodings of values that take a place in the object table.
func referable3() [][]byte {
	var l [][]byte
	for i := 0; i < 2*43*5; i++ {
		l = append(l, cat([]byte{8, 1}, b0num(float64(timeVal(i, 43).UnixMilli()))[1:]))
	}
	for _, f := range []float64{0, -62135596800000, -62135596799999, 253402300799999, 1, -1} {
		l = append(l, cat([]byte{8, 1}, b0num(f)[1:]))
	}
	var texts []string
	for i := 0; i < 256; i++ {
		texts = append(texts, string([]byte{byte(i)}))
	}
	for _, n := range []int{0, 2, 3, 63, 64, 127, 128, 300, 8191, 8192} {
		texts = append(texts, rep(n), string(make([]byte, n)))
	}
	for _, t := range texts {
		for _, k := range []byte{7, 11, 12} {
			l = append(l, cat([]byte{k}, b3utf(t)))
		}
	}
	elems := [][]byte{{0}, {1}, {2}, {3}, {4, 0}, b3dbl(0), b3str(""), b3str("s"), {9, 1, 1}, {10, 11, 1, 1}, {12, 1}, {7, 1}}
	arr := func(assoc []byte, es ...[]byte) []byte {
		return cat([]byte{9}, u29(uint32(len(es))<<1|1), assoc, []byte{1}, cat(es...))
	}
	l = append(l, arr(nil), cat([]byte{10, 11, 1, 1}), cat([]byte{10, 3, 1}), cat([]byte{10, 3}, b3utf("C")), cat([]byte{10, 11}, b3utf("C"), []byte{1}))
	for _, e := range elems {
		l = append(l, arr(nil, e), arr(nil, e, e), arr(nil, []byte{3}, e), arr(nil, e, []byte{3}, e), arr(cat(b3utf("k"), e)), arr(cat(b3utf("k"), e), e),
			cat([]byte{10, 0x13, 1}, b3utf("m"), e), cat([]byte{10, 0x23}, b3utf("C"), b3utf("m"), b3utf("n"), e, e), cat([]byte{10, 11, 1}, b3utf("d"), e, []byte{1}), cat([]byte{10, 0x1b, 1}, b3utf("m"), e, b3utf("d"), e, []byte{1}),
			cat([]byte{10, 7}, b3utf("flex.messaging.io.ArrayCollection"), e), cat([]byte{10, 7}, b3utf("X"), e), cat([]byte{10, 7}, b3utf("DSA"), []byte{1}, e, []byte{0}))
	}
	return l
}

// referable0 lists encodings of values that take a place in the reference table.
func referable0() [][]byte {
	end := []byte{0, 0, 9}
	elems := [][]byte{{5}, {6}, {1, 0}, {1, 1}, b0num(0), b0num(-1.5), b0str(""), b0str("s"), b0long("l"), cat([]byte{11}, b0num(0)[1:], []byte{0, 0}), cat([]byte{3}, end), {10, 0, 0, 0, 0}, cat([]byte{8, 0, 0, 0, 0}, end), cat([]byte{16, 0, 0}, end), {17, 1}, {17, 9, 1, 1}}
	var l [][]byte
	for _, h := range [][]byte{{3}, {8, 0, 0, 0, 0}, {8, 0, 0, 0, 1}, {8, 255, 255, 255, 255}, cat([]byte{16}, b0utf("")), cat([]byte{16}, b0utf("C")), cat([]byte{16}, b0utf(rep(300)))} {
		l = append(l, cat(h, end))
		for _, e := range elems {
			l = append(l, cat(h, b0utf("k"), e, end), cat(h, b0utf("j"), e, b0utf("k"), e, end), cat(h, b0utf("j"), b0str("x"), b0utf("k"), e, end), cat(h, b0utf("j"), e, b0utf("k"), b0str("x"), end))
		}
	}
	l = append(l, []byte{10, 0, 0, 0, 0})
	for _, e := range elems {
		for n := 1; n <= 5; n++ {
			b := cat([]byte{10}, be32(n))
			for i := 0; i < n; i++ {
				b = cat(b, e)
			}
			l = append(l, b, cat([]byte{10}, be32(n+1), b[5:], b0str("x")), cat([]byte{10}, be32(n+1), b0str("x"), b[5:]))
		}
	}
	return l
}

func referred(amf3 bool) *Scenario {
	vals := referable0()
	if amf3 {
		vals = referable3()
	}
	return chunked("referred", fmt.Sprintf("each of %d values that take a place in a reference table (empty ones, every content byte, every kind of member, times far and near), followed by references to it and to what it contains, outside and inside other values", len(vals)), len(vals), 8, func(c *Ctx, i int) {
		v := vals[i]
		{
			if !amf3 {
				r := func(n int) []byte { return cat([]byte{7}, be16(n)) }
				for n := 0; n <= 3; n++ {
					checkDec(c, false, cat(v, r(n), r(0)), extSetup, newRef(), 1000)
					checkDec(c, false, cat(v, b0num(1), []byte{3}, b0utf("a"), r(n), b0utf("b"), r(0), []byte{0, 0, 9}, r(1)), extSetup, newRef(), 1000)
					checkDec(c, false, cat([]byte{10}, be32(3), v, r(n+1), r(1), r(0)), extSetup, newRef(), 1000)
				}
				return
			}
			kinds := []byte{v[0]}
			for _, k := range []byte{7, 8, 9, 10, 11, 12} {
				if k != v[0] {
					kinds = append(kinds, k)
				}
			}
			for _, k := range kinds {
				checkDec(c, true, cat(v, []byte{k, 0}), extSetup, newRef(), 1000)
			}
			k := v[0]
			for n := uint32(0); n <= 3; n++ {
				checkDec(c, true, cat(v, []byte{k}, u29(n<<1), []byte{k, 0}), extSetup, newRef(), 1000)
				checkDec(c, true, cat(v, []byte{4, 1}, []byte{9, 5, 1, k}, u29(n<<1), []byte{k, 0}, []byte{k, 0}), extSetup, newRef(), 1000)
				checkDec(c, true, cat([]byte{9, 7, 1}, v, []byte{k}, u29((n+1)<<1), []byte{k, 2}, []byte{9, 0}), extSetup, newRef(), 1000)
				checkDec(c, true, cat(v, []byte{6}, u29(n<<1)), extSetup, newRef(), 1000)
				checkDec(c, true, cat(v, []byte{10}, u29(n<<2|1), []byte{3, 2, 1}), extSetup, newRef(), 1000)
			}
		}
	})
}
