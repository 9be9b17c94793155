//go:build go1.22

package main

import (
	"encoding/hex"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/nanobus/iota/go/internal/verifsim/simrt"
	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/msgpack/convert"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/transform"
)

// The types of typed calls: how a value is made, encoded, decoded and compared.

type typ struct {
	name   string
	gen    func(r *simrt.Rand) any
	enc    func(any) (pl, error)
	dec    func(pl) (any, error)
	never  func(prefix byte) bool // a decoder can accept no encoding that starts like this
	scalar bool                   // an integer, a string, bytes or a boolean: see refScalar
}

// scalars are the indexes of the scalar types.
var scalars []int

// plain is the scalar without its named type.
func plain(v any) any {
	x := reflect.ValueOf(v)
	switch x.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return x.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return x.Uint()
	case reflect.String:
		return x.String()
	case reflect.Bool:
		return x.Bool()
	case reflect.Slice:
		if b, ok := v.([]byte); ok {
			return string(b)
		}
	}
	return v
}

// refScalar reads the integer, string, bytes or boolean that b starts with.
func refScalar(b []byte) (string, bool) {
	if len(b) == 0 {
		return "", false
	}
	c, rest := b[0], b[1:]
	num := func(n int) (uint64, bool) {
		if len(rest) < n {
			return 0, false
		}
		var v uint64
		for _, x := range rest[:n] {
			v = v<<8 | uint64(x)
		}
		rest = rest[n:]
		return v, true
	}
	text := func(n uint64, ok bool) (string, bool) {
		if !ok || n > uint64(len(rest)) {
			return "", false
		}
		return string(rest[:n]), true
	}
	switch {
	case c < 0x80 || c >= 0xE0:
		return strconv.Itoa(int(int8(c))), true
	case c == 0xC2 || c == 0xC3:
		return strconv.FormatBool(c == 0xC3), true
	case c >= 0xCC && c <= 0xCF:
		v, ok := num(1 << (c - 0xCC))
		return strconv.FormatUint(v, 10), ok
	case c >= 0xD0 && c <= 0xD3:
		n := 1 << (c - 0xD0)
		v, ok := num(n)
		return strconv.FormatInt(int64(v<<(64-8*n))>>(64-8*n), 10), ok
	case c >= 0xA0 && c <= 0xBF:
		return text(uint64(c&0x1F), true)
	case c >= 0xD9 && c <= 0xDB:
		return text(num(1 << (c - 0xD9)))
	case c >= 0xC4 && c <= 0xC6:
		return text(num(1 << (c - 0xC4)))
	}
	return "", false
}

func mkTyp[T any](name string, t transform.Transform[T], never func(byte) bool, gen func(r *simrt.Rand) T) typ {
	return typ{name: name, gen: func(r *simrt.Rand) any { return gen(r) }, enc: func(v any) (pl, error) { return t.Encode(v.(T)) },
		dec: func(p pl) (any, error) { return t.Decode(p) }, never: never}
}

type (
	colour int32
	big    int64
	ubig   uint64
	label  string
	yes    bool
	blob   []byte
	ratio  float32
)

// families of first bytes
func isInt(b byte) bool { return b < 0x80 || b >= 0xE0 || b >= 0xCC && b <= 0xD3 }
func isStr(b byte) bool { return b >= 0xA0 && b <= 0xBF || b >= 0xD9 && b <= 0xDB }
func isBin(b byte) bool { return b >= 0xC4 && b <= 0xC6 }
func isArr(b byte) bool { return b >= 0x90 && b <= 0x9F || b == 0xDC || b == 0xDD }
func isMap(b byte) bool { return b >= 0x80 && b <= 0x8F || b == 0xDE || b == 0xDF }
func isExt(b byte) bool { return b >= 0xC7 && b <= 0xC9 || b >= 0xD4 && b <= 0xD8 }
func isFlt(b byte) bool { return b == 0xCA || b == 0xCB }

func notInt(b byte) bool  { return !isInt(b) }
func notFlt(b byte) bool  { return !isFlt(b) && !isInt(b) }
func notStr(b byte) bool  { return !isStr(b) && !isBin(b) && !isArr(b) } // array heads are accepted as the heads of strings
func notBin(b byte) bool  { return !isBin(b) && !isStr(b) && !isArr(b) && b != 0xC0 }
func notBool(b byte) bool { return b != 0xC2 && b != 0xC3 }
func notMap(b byte) bool  { return !isMap(b) && b != 0xC0 }
func notArr(b byte) bool  { return !isArr(b) && b != 0xC0 }
func noneOf(b byte) bool  { return b == 0xC1 }

func genInt(r *simrt.Rand, bits int) int64 {
	var v int64
	switch r.Pick(5, 2, 2) {
	case 0:
		k := []int{0, 5, 7, 8, 15, 16, 31, 32, 62, 63}[r.Intn(10)]
		v = int64(1) << k
		if r.Bool(0.5) {
			v = -v
		}
		v += int64(r.Intn(3) - 1)
	case 1:
		v = int64(r.Intn(300) - 150)
	default:
		v = int64(r.U64())
	}
	return v << (64 - bits) >> (64 - bits)
}

func genUint(r *simrt.Rand, bits int) uint64 {
	return uint64(genInt(r, 64)) << (64 - bits) >> (64 - bits)
}

func genFloat(r *simrt.Rand) float64 {
	switch r.Intn(4) {
	case 0:
		return []float64{0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, 1, -1.5}[r.Intn(9)]
	case 1:
		return float64(r.Intn(2000) - 1000)
	}
	return math.Float64frombits(r.U64())
}

func genLen(r *simrt.Rand) int {
	switch r.Pick(60, 30, 9, 1) {
	case 0:
		return r.Intn(12)
	case 1:
		return pick(r, 15, 16, 17, 31, 32, 33, 100)
	case 2:
		return pick(r, 127, 128, 254, 255, 256, 257, 1000)
	}
	return pick(r, 65534, 65535, 65536, 70000)
}

func genBytes(r *simrt.Rand) []byte {
	b := make([]byte, genLen(r))
	for i := range b {
		b[i] = byte(r.U64())
	}
	return b
}

func genString(r *simrt.Rand) string {
	if r.Bool(0.3) {
		return []string{"", "a", "hello", "näme", "日本", "\x00", "true", "nil"}[r.Intn(8)]
	}
	return string(genBytes(r))
}

// genTime makes instants that both text and binary forms can hold.
func genTime(r *simrt.Rand) time.Time {
	var t time.Time
	switch r.Intn(7) {
	case 0:
		return time.Time{}
	case 1:
		t = time.Unix(0, 0)
	case 2:
		t = time.Unix(int64(r.Intn(1<<31)), 0)
	case 3:
		t = time.Unix(int64(uint32(r.U64())), int64(r.Intn(1000000000)))
	case 4:
		t = time.Unix(-int64(r.Intn(1<<32)), int64(r.Intn(1000000000))) // before 1970
	case 5:
		t = time.Unix(1<<34+int64(r.Intn(1<<33)), int64(r.Intn(1000000000))) // after 2514
	default:
		t = time.Unix(1<<34-1, 999999999)
	}
	switch r.Intn(3) {
	case 0:
		return t.UTC()
	case 1:
		return t.In(time.FixedZone("x", 3600*(r.Intn(24)-12)+60*r.Intn(60)))
	}
	return t.UTC()
}

func ptr[T any](v T) *T { return &v }

func maybe[T any](r *simrt.Rand, gen func(r *simrt.Rand) T) *T {
	if r.Bool(0.4) {
		return nil
	}
	return ptr(gen(r))
}

// rec is what the code generator makes of a type with fields of all kinds.
type rec struct {
	S   string
	Sp  *string
	B   bool
	Bp  *bool
	I8  int8
	I8p *int8
	I6  int16
	I6p *int16
	I3  int32
	I3p *int32
	I   int64
	Ip  *int64
	U8  uint8
	U8p *uint8
	U6  uint16
	U6p *uint16
	U3  uint32
	U3p *uint32
	U   uint64
	Up  *uint64
	F3  float32
	F3p *float32
	F   float64
	Fp  *float64
	By  []byte
	Byp []byte
	T   time.Time
	Tp  *time.Time
	L   []int64
	M   map[string]string
	A   any
	R   *rec
	La  label
	Lap *label
	Co  colour
	Cop *colour
	Ye  yes
	Yep *yes
	Bl  blob
	Ra  ratio
	Tt  time.Time // written as text
	Ttp *time.Time
	Ext int // how many fields the reader does not know
	ext []any
}

func genRec(r *simrt.Rand, depth int) rec {
	o := rec{S: genString(r), Sp: maybe(r, genString), B: r.Bool(0.5), I8: int8(genInt(r, 8)), I6: int16(genInt(r, 16)), I3: int32(genInt(r, 32)), I: genInt(r, 64),
		U8: uint8(genUint(r, 8)), U6: uint16(genUint(r, 16)), U3: uint32(genUint(r, 32)), U: genUint(r, 64), F3: float32(genFloat(r)), F: genFloat(r), By: genBytes(r), T: genTime(r),
		La: label(genString(r)), Co: colour(genInt(r, 32)), Ye: yes(r.Bool(0.5)), Bl: blob(genBytes(r)), Ra: ratio(genFloat(r)), Tt: genTime(r)}
	o.Bp = maybe(r, func(r *simrt.Rand) bool { return r.Bool(0.5) })
	o.I8p = maybe(r, func(r *simrt.Rand) int8 { return int8(genInt(r, 8)) })
	o.I6p = maybe(r, func(r *simrt.Rand) int16 { return int16(genInt(r, 16)) })
	o.I3p = maybe(r, func(r *simrt.Rand) int32 { return int32(genInt(r, 32)) })
	o.Ip = maybe(r, func(r *simrt.Rand) int64 { return genInt(r, 64) })
	o.U8p = maybe(r, func(r *simrt.Rand) uint8 { return uint8(genUint(r, 8)) })
	o.U6p = maybe(r, func(r *simrt.Rand) uint16 { return uint16(genUint(r, 16)) })
	o.U3p = maybe(r, func(r *simrt.Rand) uint32 { return uint32(genUint(r, 32)) })
	o.Up = maybe(r, func(r *simrt.Rand) uint64 { return genUint(r, 64) })
	o.F3p = maybe(r, func(r *simrt.Rand) float32 { return float32(genFloat(r)) })
	o.Fp = maybe(r, genFloat)
	o.Tp, o.Ttp = maybe(r, genTime), maybe(r, genTime)
	if r.Bool(0.6) {
		o.Byp = genBytes(r)
	}
	for n := pick(r, 0, 1, 3, 15, 16, 20); n > 0; n-- {
		o.L = append(o.L, genInt(r, 64))
	}
	o.M = map[string]string{}
	for n := pick(r, 0, 0, 1, 3, 15, 16, 17); n > 0; n-- {
		o.M[fmt.Sprint("k", n)] = genString(r)
	}
	if r.Bool(0.7) {
		o.A = genAny(r, 2)
	}
	if depth > 0 && r.Bool(0.5) {
		o.R = ptr(genRec(r, depth-1))
	}
	o.Lap = maybe(r, func(r *simrt.Rand) label { return label(genString(r)) })
	o.Cop = maybe(r, func(r *simrt.Rand) colour { return colour(genInt(r, 32)) })
	o.Yep = maybe(r, func(r *simrt.Rand) yes { return yes(r.Bool(0.5)) })
	if r.Bool(0.5) {
		for n := 1 + r.Intn(4); n > 0; n-- {
			o.ext = append(o.ext, genAny(r, 2))
		}
	}
	return o
}

func (o *rec) fields() []struct {
	n string
	w func(w msgpack.Writer)
	r func(r msgpack.Reader) error
} {
	type f = struct {
		n string
		w func(w msgpack.Writer)
		r func(r msgpack.Reader) error
	}
	return []f{
		{"s", func(w msgpack.Writer) { w.WriteString(o.S) }, func(r msgpack.Reader) (err error) { o.S, err = r.ReadString(); return }},
		{"sp", func(w msgpack.Writer) { w.WriteNillableString(o.Sp) }, func(r msgpack.Reader) (err error) { o.Sp, err = r.ReadNillableString(); return }},
		{"b", func(w msgpack.Writer) { w.WriteBool(o.B) }, func(r msgpack.Reader) (err error) { o.B, err = r.ReadBool(); return }},
		{"bp", func(w msgpack.Writer) { w.WriteNillableBool(o.Bp) }, func(r msgpack.Reader) (err error) { o.Bp, err = r.ReadNillableBool(); return }},
		{"i8", func(w msgpack.Writer) { w.WriteInt8(o.I8) }, func(r msgpack.Reader) (err error) { o.I8, err = r.ReadInt8(); return }},
		{"i8p", func(w msgpack.Writer) { w.WriteNillableInt8(o.I8p) }, func(r msgpack.Reader) (err error) { o.I8p, err = r.ReadNillableInt8(); return }},
		{"i16", func(w msgpack.Writer) { w.WriteInt16(o.I6) }, func(r msgpack.Reader) (err error) { o.I6, err = r.ReadInt16(); return }},
		{"i16p", func(w msgpack.Writer) { w.WriteNillableInt16(o.I6p) }, func(r msgpack.Reader) (err error) { o.I6p, err = r.ReadNillableInt16(); return }},
		{"i32", func(w msgpack.Writer) { w.WriteInt32(o.I3) }, func(r msgpack.Reader) (err error) { o.I3, err = r.ReadInt32(); return }},
		{"i32p", func(w msgpack.Writer) { w.WriteNillableInt32(o.I3p) }, func(r msgpack.Reader) (err error) { o.I3p, err = r.ReadNillableInt32(); return }},
		{"i64", func(w msgpack.Writer) { w.WriteInt64(o.I) }, func(r msgpack.Reader) (err error) { o.I, err = r.ReadInt64(); return }},
		{"i64p", func(w msgpack.Writer) { w.WriteNillableInt64(o.Ip) }, func(r msgpack.Reader) (err error) { o.Ip, err = r.ReadNillableInt64(); return }},
		{"u8", func(w msgpack.Writer) { w.WriteUint8(o.U8) }, func(r msgpack.Reader) (err error) { o.U8, err = r.ReadUint8(); return }},
		{"u8p", func(w msgpack.Writer) { w.WriteNillableUint8(o.U8p) }, func(r msgpack.Reader) (err error) { o.U8p, err = r.ReadNillableUint8(); return }},
		{"u16", func(w msgpack.Writer) { w.WriteUint16(o.U6) }, func(r msgpack.Reader) (err error) { o.U6, err = r.ReadUint16(); return }},
		{"u16p", func(w msgpack.Writer) { w.WriteNillableUint16(o.U6p) }, func(r msgpack.Reader) (err error) { o.U6p, err = r.ReadNillableUint16(); return }},
		{"u32", func(w msgpack.Writer) { w.WriteUint32(o.U3) }, func(r msgpack.Reader) (err error) { o.U3, err = r.ReadUint32(); return }},
		{"u32p", func(w msgpack.Writer) { w.WriteNillableUint32(o.U3p) }, func(r msgpack.Reader) (err error) { o.U3p, err = r.ReadNillableUint32(); return }},
		{"u64", func(w msgpack.Writer) { w.WriteUint64(o.U) }, func(r msgpack.Reader) (err error) { o.U, err = r.ReadUint64(); return }},
		{"u64p", func(w msgpack.Writer) { w.WriteNillableUint64(o.Up) }, func(r msgpack.Reader) (err error) { o.Up, err = r.ReadNillableUint64(); return }},
		{"f32", func(w msgpack.Writer) { w.WriteFloat32(o.F3) }, func(r msgpack.Reader) (err error) { o.F3, err = r.ReadFloat32(); return }},
		{"f32p", func(w msgpack.Writer) { w.WriteNillableFloat32(o.F3p) }, func(r msgpack.Reader) (err error) { o.F3p, err = r.ReadNillableFloat32(); return }},
		{"f64", func(w msgpack.Writer) { w.WriteFloat64(o.F) }, func(r msgpack.Reader) (err error) { o.F, err = r.ReadFloat64(); return }},
		{"f64p", func(w msgpack.Writer) { w.WriteNillableFloat64(o.Fp) }, func(r msgpack.Reader) (err error) { o.Fp, err = r.ReadNillableFloat64(); return }},
		{"by", func(w msgpack.Writer) { w.WriteByteArray(o.By) }, func(r msgpack.Reader) (err error) { o.By, err = r.ReadByteArray(); return }},
		{"byp", func(w msgpack.Writer) { w.WriteNillableByteArray(o.Byp) }, func(r msgpack.Reader) (err error) { o.Byp, err = r.ReadNillableByteArray(); return }},
		{"t", func(w msgpack.Writer) { w.WriteTime(o.T) }, func(r msgpack.Reader) (err error) { o.T, err = r.ReadTime(); return }},
		{"tp", func(w msgpack.Writer) { w.WriteNillableTime(o.Tp) }, func(r msgpack.Reader) (err error) { o.Tp, err = r.ReadNillableTime(); return }},
		{"l", func(w msgpack.Writer) {
			w.WriteArraySize(uint32(len(o.L)))
			for _, v := range o.L {
				w.WriteInt64(v)
			}
		}, func(r msgpack.Reader) error {
			n, err := r.ReadArraySize()
			if err != nil {
				return err
			}
			o.L = nil
			for ; n > 0; n-- {
				v, err := r.ReadInt64()
				if err != nil {
					return err
				}
				o.L = append(o.L, v)
			}
			return nil
		}},
		{"m", func(w msgpack.Writer) {
			w.WriteMapSize(uint32(len(o.M)))
			ks := []string{}
			for k := range o.M {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				w.WriteString(k)
				w.WriteString(o.M[k])
			}
		}, func(r msgpack.Reader) error {
			n, err := r.ReadMapSize()
			if err != nil {
				return err
			}
			o.M = map[string]string{}
			for ; n > 0; n-- {
				k, err := r.ReadString()
				if err != nil {
					return err
				}
				if o.M[k], err = r.ReadString(); err != nil {
					return err
				}
			}
			return nil
		}},
		{"a", func(w msgpack.Writer) { w.WriteAny(o.A) }, func(r msgpack.Reader) (err error) { o.A, err = r.ReadAny(); return }},
		{"r", func(w msgpack.Writer) { o.R.Encode(w) }, func(r msgpack.Reader) (err error) { o.R, err = msgpack.DecodeNillable[rec](r); return }},
		{"la", func(w msgpack.Writer) { w.WriteString(string(o.La)) }, func(r msgpack.Reader) (err error) { o.La, err = convert.String[label](r.ReadString()); return }},
		{"lap", func(w msgpack.Writer) { w.WriteNillableString((*string)(o.Lap)) }, func(r msgpack.Reader) (err error) {
			o.Lap, err = convert.NillableString[label](r.ReadNillableString())
			return
		}},
		{"co", func(w msgpack.Writer) { w.WriteInt32(int32(o.Co)) }, func(r msgpack.Reader) (err error) { o.Co, err = convert.Numeric[colour](r.ReadInt32()); return }},
		{"cop", func(w msgpack.Writer) { w.WriteNillableInt32((*int32)(o.Cop)) }, func(r msgpack.Reader) (err error) {
			o.Cop, err = convert.NillableNumeric[colour](r.ReadNillableInt32())
			return
		}},
		{"ye", func(w msgpack.Writer) { w.WriteBool(bool(o.Ye)) }, func(r msgpack.Reader) (err error) { o.Ye, err = convert.Bool[yes](r.ReadBool()); return }},
		{"yep", func(w msgpack.Writer) { w.WriteNillableBool((*bool)(o.Yep)) }, func(r msgpack.Reader) (err error) {
			o.Yep, err = convert.NillableBool[yes](r.ReadNillableBool())
			return
		}},
		{"bl", func(w msgpack.Writer) { w.WriteByteArray(o.Bl) }, func(r msgpack.Reader) (err error) { o.Bl, err = convert.ByteArray[blob](r.ReadByteArray()); return }},
		{"ra", func(w msgpack.Writer) { w.WriteFloat32(float32(o.Ra)) }, func(r msgpack.Reader) (err error) { o.Ra, err = convert.Numeric[ratio](r.ReadFloat32()); return }},
		{"tt", func(w msgpack.Writer) { w.WriteString(convert.TimeToString(o.Tt)) }, func(r msgpack.Reader) (err error) { o.Tt, err = convert.StringToTime(r.ReadString()); return }},
		{"ttp", func(w msgpack.Writer) { w.WriteNillableString(convert.TimeToStringPtr(o.Ttp)) }, func(r msgpack.Reader) (err error) {
			o.Ttp, err = convert.StringToTimePtr(r.ReadNillableString())
			return
		}},
	}
}

// Decode is what the code generator writes.
func (o *rec) Decode(decoder msgpack.Reader) error {
	n, err := decoder.ReadMapSize()
	if err != nil {
		return err
	}
	fs := o.fields()
	for ; n > 0; n-- {
		field, err := decoder.ReadString()
		if err != nil {
			return err
		}
		known := false
		for _, f := range fs {
			if f.n == field {
				err, known = f.r(decoder), true
				break
			}
		}
		if !known {
			err = decoder.Skip()
		}
		if err != nil {
			return err
		}
	}
	return nil
}

// Encode writes all fields and those the reader does not know, among them.
func (o *rec) Encode(encoder msgpack.Writer) error {
	if o == nil {
		encoder.WriteNil()
		return nil
	}
	fs := o.fields()
	encoder.WriteMapSize(uint32(len(fs) + len(o.ext)))
	for i, f := range fs {
		if i < len(o.ext) && i%2 == 0 {
			encoder.WriteString("new" + strconv.Itoa(i))
			encoder.WriteAny(o.ext[i])
		}
		encoder.WriteString(f.n)
		f.w(encoder)
	}
	for i, v := range o.ext {
		if i%2 == 1 {
			encoder.WriteString("new" + strconv.Itoa(i))
			encoder.WriteAny(v)
		}
	}
	return nil
}

// small is a little record, for lists of them.
type small struct {
	N int32
	S string
}

func (o *small) Decode(decoder msgpack.Reader) error {
	n, err := decoder.ReadMapSize()
	if err != nil {
		return err
	}
	for ; n > 0; n-- {
		field, err := decoder.ReadString()
		if err != nil {
			return err
		}
		switch field {
		case "n":
			o.N, err = decoder.ReadInt32()
		case "s":
			o.S, err = decoder.ReadString()
		default:
			err = decoder.Skip()
		}
		if err != nil {
			return err
		}
	}
	return nil
}

func (o *small) Encode(encoder msgpack.Writer) error {
	encoder.WriteMapSize(2)
	encoder.WriteString("n")
	encoder.WriteInt32(o.N)
	encoder.WriteString("s")
	encoder.WriteString(o.S)
	return nil
}

func genSmall(r *simrt.Rand) small { return small{int32(genInt(r, 32)), genString(r)} }

// genAny makes a value of those WriteAny takes.
func genAny(r *simrt.Rand, depth int) any {
	k := r.Intn(34)
	if depth <= 0 {
		k = r.Intn(17)
	}
	n := pick(r, 0, 1, 2, 3, 15, 16, 17)
	key := func(i int) string { return fmt.Sprint("key", i) }
	switch k {
	case 0:
		return nil
	case 1:
		return r.Bool(0.5)
	case 2:
		return int(genInt(r, 64))
	case 3:
		return int8(genInt(r, 8))
	case 4:
		return int16(genInt(r, 16))
	case 5:
		return int32(genInt(r, 32))
	case 6:
		return genInt(r, 64)
	case 7:
		return uint(genUint(r, 64))
	case 8:
		return uint8(genUint(r, 8))
	case 9:
		return uint16(genUint(r, 16))
	case 10:
		return uint32(genUint(r, 32))
	case 11:
		return genUint(r, 64)
	case 12:
		return float32(genFloat(r))
	case 13:
		return genFloat(r)
	case 14:
		return genString(r)
	case 15:
		return genBytes(r)
	case 16:
		return genTime(r)
	case 17, 18, 19, 20:
		l := []any{}
		for i := r.Intn(5); i > 0; i-- {
			l = append(l, genAny(r, depth-1))
		}
		return l
	case 21, 22, 23:
		m := map[string]any{}
		for i := r.Intn(5); i > 0; i-- {
			m[key(i)] = genAny(r, depth-1)
		}
		return m
	case 24:
		m := map[any]any{}
		for i := r.Intn(5); i > 0; i-- {
			switch i {
			case 1:
				m[true] = genAny(r, depth-1)
			case 2:
				m[int64(1000+i)] = genAny(r, depth-1)
			case 3:
				m[1.5] = genAny(r, depth-1)
			default:
				m[key(i)] = genAny(r, depth-1)
			}
		}
		return m
	case 25:
		m := map[string]string{}
		for i := n; i > 0; i-- {
			m[key(i)] = key(-i)
		}
		return m
	case 26:
		return slice(r, n, genString)
	case 27:
		return slice(r, n, genTime)
	case 28:
		return slice(r, n, func(r *simrt.Rand) bool { return r.Bool(0.5) })
	case 29:
		switch r.Intn(5) {
		case 0:
			return slice(r, n, func(r *simrt.Rand) int { return int(genInt(r, 64)) })
		case 1:
			return slice(r, n, func(r *simrt.Rand) int8 { return int8(genInt(r, 8)) })
		case 2:
			return slice(r, n, func(r *simrt.Rand) int16 { return int16(genInt(r, 16)) })
		case 3:
			return slice(r, n, func(r *simrt.Rand) int32 { return int32(genInt(r, 32)) })
		}
		return slice(r, n, func(r *simrt.Rand) int64 { return genInt(r, 64) })
	case 30:
		switch r.Intn(4) {
		case 0:
			return slice(r, n, func(r *simrt.Rand) uint { return uint(genUint(r, 64)) })
		case 1:
			return slice(r, n, func(r *simrt.Rand) uint16 { return uint16(genUint(r, 16)) })
		case 2:
			return slice(r, n, func(r *simrt.Rand) uint32 { return uint32(genUint(r, 32)) })
		}
		return slice(r, n, func(r *simrt.Rand) uint64 { return genUint(r, 64) })
	case 31:
		return intMap(r, depth)
	case 32:
		return uintMap(r, depth)
	}
	return ptr(genSmall(r))
}

func slice[T any](r *simrt.Rand, n int, gen func(r *simrt.Rand) T) []T {
	l := []T{}
	for ; n > 0; n-- {
		l = append(l, gen(r))
	}
	return l
}

func keyed[K comparable](r *simrt.Rand, depth int, key func(i int) K) map[K]any {
	m := map[K]any{}
	for i := r.Intn(4); i > 0; i-- {
		m[key(i)] = genAny(r, depth-1)
	}
	return m
}

func intMap(r *simrt.Rand, depth int) any {
	switch r.Intn(5) {
	case 0:
		return keyed(r, depth, func(i int) int { return -i })
	case 1:
		return keyed(r, depth, func(i int) int8 { return int8(-40 * i) })
	case 2:
		return keyed(r, depth, func(i int) int16 { return int16(300 * i) })
	case 3:
		return keyed(r, depth, func(i int) int32 { return int32(-70000 * i) })
	}
	return keyed(r, depth, func(i int) int64 { return int64(i) << 40 })
}

func uintMap(r *simrt.Rand, depth int) any {
	switch r.Intn(5) {
	case 0:
		return keyed(r, depth, func(i int) uint { return uint(i) })
	case 1:
		return keyed(r, depth, func(i int) uint8 { return uint8(60 * i) })
	case 2:
		return keyed(r, depth, func(i int) uint16 { return uint16(300 * i) })
	case 3:
		return keyed(r, depth, func(i int) uint32 { return uint32(70000 * i) })
	}
	return keyed(r, depth, func(i int) uint64 { return uint64(i) << 40 })
}

// canon is the value as text: two values have the same text if, and only if, they are the same to MessagePack.
func canon(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool:
		return strconv.FormatBool(x)
	case int:
		return strconv.Itoa(x)
	case int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
		return fmt.Sprint(x)
	case colour:
		return fmt.Sprint(int32(x))
	case big:
		return fmt.Sprint(int64(x))
	case ubig:
		return fmt.Sprint(uint64(x))
	case label:
		return canon(string(x))
	case float32:
		return "f" + strconv.FormatUint(uint64(math.Float32bits(x)), 16)
	case float64:
		return "d" + strconv.FormatUint(math.Float64bits(x), 16)
	case string:
		return "\"" + hex.EncodeToString([]byte(x)) + "\""
	case []byte:
		return "'" + hex.EncodeToString(x) + "'"
	case time.Time:
		return "t" + strconv.FormatInt(x.Unix(), 10) + "." + strconv.Itoa(x.Nanosecond())
	case struct{}:
		return "void"
	case []any:
		return list(x)
	case []string:
		return list(x)
	case []time.Time:
		return list(x)
	case []bool:
		return list(x)
	case []int:
		return list(x)
	case []int8:
		return list(x)
	case []int16:
		return list(x)
	case []int32:
		return list(x)
	case []int64:
		return list(x)
	case []uint:
		return list(x)
	case []uint16:
		return list(x)
	case []uint32:
		return list(x)
	case []uint64:
		return list(x)
	case map[any]any:
		return dict(x)
	case map[string]any:
		return dict(x)
	case map[string]string:
		return dict(x)
	case map[int]any:
		return dict(x)
	case map[int8]any:
		return dict(x)
	case map[int16]any:
		return dict(x)
	case map[int32]any:
		return dict(x)
	case map[int64]any:
		return dict(x)
	case map[uint]any:
		return dict(x)
	case map[uint8]any:
		return dict(x)
	case map[uint16]any:
		return dict(x)
	case map[uint32]any:
		return dict(x)
	case map[uint64]any:
		return dict(x)
	case *small:
		return dict(map[string]any{"n": x.N, "s": x.S})
	case small:
		return canon(&x)
	case []small:
		return list(x)
	case rec:
		return x.text()
	case *rec:
		if x == nil {
			return "nil"
		}
		return x.text()
	}
	harness("no text for a %T", v)
	return ""
}

func list[T any](l []T) string {
	var b strings.Builder
	b.WriteByte('[')
	for _, v := range l {
		b.WriteString(canon(v))
		b.WriteByte(' ')
	}
	b.WriteByte(']')
	return b.String()
}

func dict[K comparable, V any](m map[K]V) string {
	l := []string{}
	for k, v := range m {
		l = append(l, canon(k)+":"+canon(v))
	}
	sort.Strings(l)
	return "{" + strings.Join(l, " ") + "}"
}

func opt[T any](p *T) any {
	if p == nil {
		return nil
	}
	return *p
}

func (o *rec) text() string {
	var byp any
	if o.Byp != nil {
		byp = o.Byp
	}
	l := []any{o.S, opt(o.Sp), o.B, opt(o.Bp), o.I8, opt(o.I8p), o.I6, opt(o.I6p), o.I3, opt(o.I3p), o.I, opt(o.Ip), o.U8, opt(o.U8p), o.U6, opt(o.U6p), o.U3, opt(o.U3p), o.U, opt(o.Up),
		o.F3, opt(o.F3p), o.F, opt(o.Fp), o.By, byp, o.T, opt(o.Tp), o.L, o.M, o.A, string(o.La), int32(o.Co), bool(o.Ye), []byte(o.Bl), float32(o.Ra), o.Tt, opt(o.Ttp)}
	var lap, cop, yep any
	if o.Lap != nil {
		lap = string(*o.Lap)
	}
	if o.Cop != nil {
		cop = int32(*o.Cop)
	}
	if o.Yep != nil {
		yep = bool(*o.Yep)
	}
	return list(append(l, lap, cop, yep)) + canon(o.R)
}

// mpLen is the length of the one MessagePack value b begins with, -1 if b ends before it does or it is none.
func mpLen(b []byte) int {
	pos := 0
	for left := 1; left > 0; left-- {
		if pos >= len(b) {
			return -1
		}
		c := b[pos]
		pos++
		be := func(n int) int {
			if len(b)-pos < n {
				pos = len(b) + 1
				return 0
			}
			v := 0
			for _, x := range b[pos : pos+n] {
				v = v<<8 | int(x)
			}
			pos += n
			return v
		}
		switch {
		case c < 0x80 || c >= 0xE0:
		case c < 0x90:
			left += 2 * int(c&15)
		case c < 0xA0:
			left += int(c & 15)
		case c < 0xC0:
			pos += int(c & 31)
		default:
			switch c {
			case 0xC0, 0xC2, 0xC3:
			case 0xC4, 0xD9:
				pos += be(1)
			case 0xC5, 0xDA:
				pos += be(2)
			case 0xC6, 0xDB:
				pos += be(4)
			case 0xC7:
				pos += be(1) + 1
			case 0xC8:
				pos += be(2) + 1
			case 0xC9:
				pos += be(4) + 1
			case 0xCC, 0xD0:
				pos++
			case 0xCD, 0xD1:
				pos += 2
			case 0xCA, 0xCE, 0xD2:
				pos += 4
			case 0xCB, 0xCF, 0xD3:
				pos += 8
			case 0xD4, 0xD5, 0xD6, 0xD7, 0xD8:
				pos += 1 + 1<<(c-0xD4)
			case 0xDC:
				left += be(2)
			case 0xDD:
				left += be(4)
			case 0xDE:
				left += 2 * be(2)
			case 0xDF:
				left += 2 * be(4)
			default:
				return -1
			}
		}
		if pos > len(b) {
			return -1
		}
	}
	return pos
}

var typs = []typ{
	mkTyp("string", transform.String, notStr, genString),
	mkTyp("int", transform.Int, notInt, func(r *simrt.Rand) int { return int(genInt(r, 64)) }),
	mkTyp("i64", transform.Int64, notInt, func(r *simrt.Rand) int64 { return genInt(r, 64) }),
	mkTyp("i32", transform.Int32, notInt, func(r *simrt.Rand) int32 { return int32(genInt(r, 32)) }),
	mkTyp("i16", transform.Int16, notInt, func(r *simrt.Rand) int16 { return int16(genInt(r, 16)) }),
	mkTyp("i8", transform.Int8, notInt, func(r *simrt.Rand) int8 { return int8(genInt(r, 8)) }),
	mkTyp("uint", transform.Uint, notInt, func(r *simrt.Rand) uint { return uint(genUint(r, 64)) }),
	mkTyp("u64", transform.Uint64, notInt, func(r *simrt.Rand) uint64 { return genUint(r, 64) }),
	mkTyp("u32", transform.Uint32, notInt, func(r *simrt.Rand) uint32 { return uint32(genUint(r, 32)) }),
	mkTyp("u16", transform.Uint16, notInt, func(r *simrt.Rand) uint16 { return uint16(genUint(r, 16)) }),
	mkTyp("u8", transform.Uint8, notInt, func(r *simrt.Rand) uint8 { return uint8(genUint(r, 8)) }),
	mkTyp("f64", transform.Float64, notFlt, genFloat),
	mkTyp("f32", transform.Float32, notFlt, func(r *simrt.Rand) float32 { return float32(genFloat(r)) }),
	mkTyp("bytes", transform.Bytes, notBin, genBytes),
	mkTyp("bool", transform.Bool, notBool, func(r *simrt.Rand) bool { return r.Bool(0.5) }),
	mkTyp("time", transform.Time, func(b byte) bool { return notStr(b) && !isExt(b) }, genTime),
	{name: "void", gen: func(r *simrt.Rand) any { return struct{}{} }, enc: func(v any) (pl, error) { return transform.Void.Encode(v.(struct{})) },
		dec: func(p pl) (any, error) { return transform.Void.Decode(p) }},
	mkTyp("record", transform.Transform[rec]{Decode: transform.MsgPackDecode[rec], Encode: transform.MsgPackEncode[rec]}, notMap, func(r *simrt.Rand) rec { return genRec(r, 1) }),
	{name: "codec", never: notMap, gen: func(r *simrt.Rand) any { return ptr(genRec(r, 1)) },
		enc: func(v any) (pl, error) {
			b, err := msgpack.ToBytes(v.(*rec))
			return payload.New(b), err
		},
		dec: func(p pl) (any, error) {
			var o rec
			err := transform.CodecDecode(p, &o)
			return &o, err
		}},
	mkTyp("list", transform.Transform[[]small]{Decode: transform.SliceDecode[small], Encode: transform.SliceEncode[small]}, notArr,
		func(r *simrt.Rand) []small { return slice(r, pick(r, 0, 1, 2, 5, 15, 16, 17, 40), genSmall) }),
	{name: "any", never: noneOf, gen: func(r *simrt.Rand) any { return genAny(r, 3) },
		enc: func(v any) (pl, error) {
			b, err := msgpack.AnyToBytes(v)
			return payload.New(b), err
		},
		dec: func(p pl) (any, error) {
			d := msgpack.NewDecoder(p.Data())
			return d.ReadAny()
		}},
	mkTyp("colour", transform.Transform[colour]{Decode: transform.Int32Decode[colour], Encode: transform.Int32Encode[colour]}, notInt, func(r *simrt.Rand) colour { return colour(genInt(r, 32)) }),
	mkTyp("big", transform.Transform[big]{Decode: transform.Int64Decode[big], Encode: transform.Int64Encode[big]}, notInt, func(r *simrt.Rand) big { return big(genInt(r, 64)) }),
	mkTyp("ubig", transform.Transform[ubig]{Decode: transform.Uint64Decode[ubig], Encode: transform.Uint64Encode[ubig]}, notInt, func(r *simrt.Rand) ubig { return ubig(genUint(r, 64)) }),
	mkTyp("label", transform.Transform[label]{Decode: transform.StringDecode[label], Encode: transform.StringEncode[label]}, notStr, func(r *simrt.Rand) label { return label(genString(r)) }),
	{name: "scalar", never: noneOf, gen: func(r *simrt.Rand) any {
		for {
			v := genAny(r, 0)
			switch v.(type) {
			case nil, int, uint, time.Time:
			default:
				return v
			}
		}
	}, enc: encScalar, dec: func(p pl) (any, error) {
		d := msgpack.NewDecoder(p.Data())
		return d.ReadAny()
	}},
}

// encScalar uses the encoder's functions for single values.
func encScalar(v any) (pl, error) {
	var b []byte
	var err error
	switch x := v.(type) {
	case bool:
		b, err = msgpack.BoolToBytes(x)
	case int8:
		b, err = msgpack.I8ToBytes(x)
	case int16:
		b, err = msgpack.I16ToBytes(x)
	case int32:
		b, err = msgpack.I32ToBytes(x)
	case int64:
		b, err = msgpack.I64ToBytes(x)
	case uint8:
		b, err = msgpack.U8ToBytes(x)
	case uint16:
		b, err = msgpack.U16ToBytes(x)
	case uint32:
		b, err = msgpack.U32ToBytes(x)
	case uint64:
		b, err = msgpack.U64ToBytes(x)
	case float32:
		b, err = msgpack.F32ToBytes(x)
	case float64:
		b, err = msgpack.F64ToBytes(x)
	case string:
		b, err = msgpack.StringToBytes(x)
	case []byte:
		b, err = msgpack.BytesToBytes(x)
	default:
		harness("no scalar: %T", v)
	}
	return payload.New(b), err
}

func init() {
	for i := range typs {
		switch t := &typs[i]; t.name {
		case "f64", "f32", "time", "void", "record", "codec", "list":
		default:
			t.scalar = true
			scalars = append(scalars, i)
		}
	}
}
