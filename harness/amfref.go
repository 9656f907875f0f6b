// Independent reference readers for AMF0 and AMF3, written from the Adobe
// specifications, with explicit reference tables.
package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"strings"
	"time"
)

type refStatus int

const (
	refOK        refStatus = iota
	refTruncated           // input ends inside the value
	refBad                 // must be refused
	refUnspec              // the specification does not settle it: only "no crash" applies
)

func (s refStatus) String() string {
	return [...]string{"ok", "truncated", "must be refused", "unspecified"}[s]
}

// refArr is an AMF3 array: dense part plus associative part.
type refArr struct {
	dense []interface{}
	assoc map[string]interface{}
}

type refObj map[string]interface{}

type refTyped struct {
	typ string
	obj refObj
}

type refDate float64 // milliseconds

type refTimeMs int64

// refPending marks a table slot whose value is still being read.
type refPending struct{}

func canonRef(v interface{}) string {
	var sb strings.Builder
	canonRefTo(&sb, v)
	return sb.String()
}

func canonRefMap(sb *strings.Builder, m map[string]interface{}) {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	sb.WriteByte('{')
	for _, k := range ks {
		fmt.Fprintf(sb, "%d:", len(k))
		sb.WriteString(k)
		sb.WriteByte('=')
		canonRefTo(sb, m[k])
		sb.WriteByte(',')
	}
	sb.WriteByte('}')
}

func canonRefTo(sb *strings.Builder, v interface{}) {
	switch x := v.(type) {
	case nil:
		sb.WriteString("null")
	case bool:
		fmt.Fprintf(sb, "%v", x)
	case float64:
		sb.WriteString(fnum(x))
	case int64:
		sb.WriteString(fnum(float64(x)))
	case refDate: // AMF0 dates are reported as their number of milliseconds
		sb.WriteString(fnum(float64(x)))
	case refTimeMs:
		fmt.Fprintf(sb, "t%d", int64(x))
	case string:
		fmt.Fprintf(sb, "s%d:", len(x))
		sb.WriteString(x)
	case []byte:
		fmt.Fprintf(sb, "b%d:", len(x))
		sb.Write(x)
	case []interface{}:
		sb.WriteByte('[')
		for _, e := range x {
			canonRefTo(sb, e)
			sb.WriteByte(',')
		}
		sb.WriteByte(']')
	case refArr:
		sb.WriteByte('[')
		for _, e := range x.dense {
			canonRefTo(sb, e)
			sb.WriteByte(',')
		}
		sb.WriteByte(']')
		if len(x.assoc) > 0 {
			canonRefMap(sb, x.assoc)
		}
	case refObj:
		canonRefMap(sb, x)
	case refTyped:
		fmt.Fprintf(sb, "T%d:%s", len(x.typ), x.typ)
		canonRefMap(sb, x.obj)
	default:
		panic(fmt.Sprintf("harness: canonRef of %T", v))
	}
}

type refStop struct {
	st  refStatus
	why string
}

type ref3 struct {
	strs   []string
	objs   []interface{}
	traits []refTrait
	ext    map[string]bool // classes whose registered handler reads one value
}

type refTrait struct {
	typ   string
	ext   bool
	dyn   bool
	props []string
}

type refIn struct {
	b   []byte
	pos int
}

func (r *refIn) need(n int) []byte {
	if n < 0 || len(r.b)-r.pos < n {
		panic(refStop{refTruncated, "data ends"})
	}
	p := r.b[r.pos : r.pos+n]
	r.pos += n
	return p
}
func (r *refIn) u8() byte     { return r.need(1)[0] }
func (r *refIn) u16() int     { return int(binary.BigEndian.Uint16(r.need(2))) }
func (r *refIn) u32() int64   { return int64(binary.BigEndian.Uint32(r.need(4))) }
func (r *refIn) f64() float64 { return math.Float64frombits(binary.BigEndian.Uint64(r.need(8))) }

// refRun runs f and reports how it ended.
func refRun(f func() interface{}) (v interface{}, st refStatus, why string) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(refStop); ok {
				st, why = s.st, s.why
				return
			}
			panic(r)
		}
	}()
	return f(), refOK, ""
}

type ref0Dec struct {
	table []interface{}
	r3    ref3
}

func (d *ref0Dec) str16(in *refIn) string { return string(in.need(in.u16())) }

func (d *ref0Dec) props(in *refIn, o refObj) {
	for {
		k := d.str16(in)
		if k == "" {
			if in.u8() != 9 {
				panic(refStop{refBad, "empty key without object end"})
			}
			return
		}
		o[k] = d.value(in)
	}
}

func (d *ref0Dec) value(in *refIn) interface{} {
	switch m := in.u8(); m {
	case 0:
		return in.f64()
	case 1:
		return in.u8() != 0
	case 2:
		return d.str16(in)
	case 3, 8:
		if m == 8 {
			in.u32()
		}
		i := len(d.table)
		d.table = append(d.table, refPending{})
		o := refObj{}
		d.props(in, o)
		d.table[i] = o
		return o
	case 5, 6, 13:
		return nil
	case 7:
		i := in.u16()
		if i >= len(d.table) {
			panic(refStop{refBad, "reference to a missing entry"})
		}
		if _, p := d.table[i].(refPending); p {
			panic(refStop{refUnspec, "cyclic reference"})
		}
		return d.table[i]
	case 10:
		n := in.u32()
		i := len(d.table)
		d.table = append(d.table, refPending{})
		a := []interface{}{}
		for k := int64(0); k < n; k++ {
			a = append(a, d.value(in))
		}
		d.table[i] = a
		return a
	case 11:
		f := in.f64()
		in.need(2)
		return refDate(f)
	case 12, 15:
		return string(in.need(int(in.u32())))
	case 16:
		i := len(d.table)
		d.table = append(d.table, refPending{})
		t := refTyped{typ: d.str16(in), obj: refObj{}}
		d.props(in, t.obj)
		d.table[i] = t
		return t
	case 17:
		return d.r3.value(in)
	default:
		panic(refStop{refBad, fmt.Sprintf("unsupported type %d", m)})
	}
}

func (in *refIn) u29() uint32 {
	var v uint32
	for i := 0; i < 3; i++ {
		b := in.u8()
		v = v<<7 | uint32(b&0x7f)
		if b&0x80 == 0 {
			return v
		}
	}
	return v<<8 | uint32(in.u8())
}

func (d *ref3) str(in *refIn) string {
	u := in.u29()
	if u&1 == 0 {
		i := int(u >> 1)
		if i >= len(d.strs) {
			panic(refStop{refBad, "string reference to a missing entry"})
		}
		return d.strs[i]
	}
	s := string(in.need(int(u >> 1)))
	if s != "" {
		d.strs = append(d.strs, s)
	}
	return s
}

func (d *ref3) obj(i int) interface{} {
	if i >= len(d.objs) {
		panic(refStop{refBad, "object reference to a missing entry"})
	}
	if _, p := d.objs[i].(refPending); p {
		panic(refStop{refUnspec, "cyclic reference"})
	}
	return d.objs[i]
}

func (d *ref3) reserve() int {
	d.objs = append(d.objs, refPending{})
	return len(d.objs) - 1
}

type refXML string

func (d *ref3) value(in *refIn) interface{} {
	v := d.value0(in)
	if x, ok := v.(refXML); ok {
		return string(x)
	}
	return v
}

func (d *ref3) value0(in *refIn) interface{} {
	switch m := in.u8(); m {
	case 0, 1:
		return nil
	case 2:
		return false
	case 3:
		return true
	case 4:
		u := int64(in.u29())
		if u >= 1<<28 {
			u -= 1 << 29
		}
		return u
	case 5:
		return in.f64()
	case 6:
		return d.str(in)
	case 7, 11:
		u := in.u29()
		if u&1 == 0 {
			o := d.obj(int(u >> 1))
			s, ok := o.(refXML)
			if _, is := o.(string); is {
				panic(refStop{refUnspec, "XML reference to a plain string"})
			}
			if !ok {
				panic(refStop{refBad, "reference of another kind"})
			}
			return s
		}
		s := refXML(in.need(int(u >> 1)))
		d.objs = append(d.objs, s)
		return s
	case 8:
		u := in.u29()
		if u&1 == 0 {
			t, ok := d.obj(int(u >> 1)).(refTimeMs)
			if !ok {
				panic(refStop{refBad, "reference of another kind"})
			}
			return t
		}
		f := in.f64()
		if math.IsNaN(f) || math.Abs(f) > 8.64e15 || f != math.Trunc(f) {
			// dates are compared to whole milliseconds only
			panic(refStop{refUnspec, "date outside the range or resolution that is compared"})
		}
		t := refTimeMs(int64(f))
		d.objs = append(d.objs, t)
		return t
	case 9:
		u := in.u29()
		if u&1 == 0 {
			a, ok := d.obj(int(u >> 1)).(refArr)
			if !ok {
				panic(refStop{refBad, "reference of another kind"})
			}
			return a
		}
		i := d.reserve()
		a := refArr{assoc: map[string]interface{}{}}
		for {
			k := d.str(in)
			if k == "" {
				break
			}
			a.assoc[k] = d.value(in)
		}
		for n := u >> 1; n > 0; n-- {
			a.dense = append(a.dense, d.value(in))
		}
		d.objs[i] = a
		return a
	case 10:
		return d.object(in)
	case 12:
		u := in.u29()
		if u&1 == 0 {
			b, ok := d.obj(int(u >> 1)).([]byte)
			if !ok {
				panic(refStop{refBad, "reference of another kind"})
			}
			return b
		}
		b := append([]byte{}, in.need(int(u>>1))...)
		d.objs = append(d.objs, b)
		return b
	default:
		panic(refStop{refBad, fmt.Sprintf("unsupported type %d", m)})
	}
}

var (
	absFields = [][]string{{"body", "clientId", "destination", "headers", "messageId", "timeStamp", "timeToLive"}, {"clientIdBytes", "messageIdBytes"}}
	dsaFields = [][]string{{"correlationId", "correlationIdBytes"}}
)

func (d *ref3) external(in *refIn, o refObj, sets [][]string) {
	var flags []byte
	for {
		f := in.u8()
		flags = append(flags, f)
		if f&0x80 == 0 {
			break
		}
	}
	for i, f := range flags {
		for bit := 0; bit < 7; bit++ {
			if f>>bit&1 == 0 {
				continue
			}
			v := d.value(in)
			name := fmt.Sprintf("extra_%d_%d", i, bit)
			if i < len(sets) && bit < len(sets[i]) {
				name = sets[i][bit]
			}
			o[name] = v
		}
	}
}

func (d *ref3) object(in *refIn) interface{} {
	u := in.u29()
	if u&1 == 0 {
		return d.obj(int(u >> 1))
	}
	var t refTrait
	if u&2 == 0 {
		i := int(u >> 2)
		if i >= len(d.traits) {
			panic(refStop{refBad, "trait reference to a missing entry"})
		}
		t = d.traits[i]
	} else {
		t.ext = u&4 != 0
		t.dyn = u&8 != 0
		if t.ext && u>>3 != 0 {
			panic(refStop{refUnspec, "externalizable traits with members"})
		}
		t.typ = d.str(in)
		for n := u >> 4; n > 0; n-- {
			t.props = append(t.props, d.str(in))
		}
		d.traits = append(d.traits, t)
	}
	i := d.reserve()
	if t.ext {
		var v interface{}
		switch {
		case t.typ == "DSA" || t.typ == "DSK":
			o := refObj{}
			d.external(in, o, absFields)
			d.external(in, o, dsaFields)
			if t.typ == "DSK" {
				d.external(in, o, nil)
			}
			v = o
		case t.typ == "flex.messaging.io.ArrayCollection":
			v = d.value(in)
		case d.ext[t.typ]:
			switch t.typ {
			case "plain": // its value is the next one
				v = d.value(in)
			case "nothing":
			case "pair":
				v = []interface{}{d.value(in), d.value(in)}
			default:
				v = []interface{}{"handled", d.value(in)}
			}
		default:
			panic(refStop{refBad, "externalizable class without a handler"})
		}
		d.objs[i] = v
		return v
	}
	o := refObj{}
	for _, k := range t.props {
		o[k] = d.value(in)
	}
	if t.dyn {
		for {
			k := d.str(in)
			if k == "" {
				break
			}
			o[k] = d.value(in)
		}
	}
	d.objs[i] = o
	return o
}

// ---- byte builders, independent of the encoders under test ----

func b0num(f float64) []byte {
	b := make([]byte, 9)
	binary.BigEndian.PutUint64(b[1:], math.Float64bits(f))
	return b
}

func be16(n int) []byte { return []byte{byte(n >> 8), byte(n)} }
func be24(n int) []byte { return []byte{byte(n >> 16), byte(n >> 8), byte(n)} }
func be32(n int) []byte { return []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)} }

func cat(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

func b0utf(s string) []byte  { return cat(be16(len(s)), []byte(s)) }
func b0str(s string) []byte  { return cat([]byte{2}, b0utf(s)) }
func b0long(s string) []byte { return cat([]byte{12}, be32(len(s)), []byte(s)) }

func u29(v uint32) []byte {
	switch {
	case v < 0x80:
		return []byte{byte(v)}
	case v < 0x4000:
		return []byte{byte(v>>7) | 0x80, byte(v & 0x7f)}
	case v < 0x200000:
		return []byte{byte(v>>14) | 0x80, byte(v>>7&0x7f) | 0x80, byte(v & 0x7f)}
	default:
		return []byte{byte(v>>22) | 0x80, byte(v>>15&0x7f) | 0x80, byte(v>>8&0x7f) | 0x80, byte(v)}
	}
}

func b3utf(s string) []byte { return cat(u29(uint32(len(s))<<1|1), []byte(s)) }
func b3str(s string) []byte { return cat([]byte{6}, b3utf(s)) }
func b3int(v int) []byte    { return cat([]byte{4}, u29(uint32(v)&0x1fffffff)) }
func b3dbl(f float64) []byte {
	b := b0num(f)
	b[0] = 5
	return b
}

func utc(sec int64) time.Time { return time.Unix(sec, 0).UTC() }

func ms(n int64) time.Time { return time.UnixMilli(n).UTC() }
