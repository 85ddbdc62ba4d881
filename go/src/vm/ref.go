package vm

import (
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
)

// LieAt is the value of which the encoders (and Write) announce LieSize elements or bytes.
var (
	LieAt   *Val
	LieSize int
)

func announced(v *Val, n int) int {
	if v == LieAt {
		return LieSize
	}
	return n
}

// ---- Thrift binary protocol, written from its specification

func RefBinary(b []byte, v *Val) []byte {
	switch v.T {
	case BOOL:
		if v.B {
			return append(b, 1)
		}
		return append(b, 0)
	case BYTE:
		return append(b, byte(v.I))
	case I16:
		return append(b, byte(v.I>>8), byte(v.I))
	case I32:
		return binary.BigEndian.AppendUint32(b, uint32(v.I))
	case I64:
		return binary.BigEndian.AppendUint64(b, uint64(v.I))
	case DOUBLE:
		return binary.BigEndian.AppendUint64(b, math.Float64bits(v.D))
	case STRING:
		b = binary.BigEndian.AppendUint32(b, uint32(announced(v, len(v.S))))
		return append(b, v.S...)
	case STRUCT:
		for _, f := range v.Fields {
			b = append(b, f.V.T, byte(uint16(f.ID)>>8), byte(f.ID))
			b = RefBinary(b, f.V)
		}
		return append(b, 0)
	case LIST, SET:
		b = append(b, v.ET)
		b = binary.BigEndian.AppendUint32(b, uint32(announced(v, len(v.Elems))))
		for _, x := range v.Elems {
			b = RefBinary(b, x)
		}
		return b
	case MAP:
		b = append(b, v.KT, v.ET)
		b = binary.BigEndian.AppendUint32(b, uint32(announced(v, len(v.Elems))))
		for i, x := range v.Elems {
			b = RefBinary(b, v.Keys[i])
			b = RefBinary(b, x)
		}
		return b
	}
	panic("bad")
}

func RefBinaryMsg(m *Msg, strict bool) []byte {
	var b []byte
	if strict {
		b = binary.BigEndian.AppendUint32(b, 0x80010000|uint32(m.Type))
		b = binary.BigEndian.AppendUint32(b, uint32(len(m.Name)))
		b = append(b, m.Name...)
	} else {
		b = binary.BigEndian.AppendUint32(b, uint32(len(m.Name)))
		b = append(b, m.Name...)
		b = append(b, byte(m.Type))
	}
	b = binary.BigEndian.AppendUint32(b, uint32(m.Seq))
	return RefBinary(b, m.Body)
}

// ---- Thrift compact protocol, written from its specification

func uvar(b []byte, u uint64) []byte {
	for u >= 0x80 {
		b = append(b, byte(u)|0x80)
		u >>= 7
	}
	return append(b, byte(u))
}

func zig(i int64) uint64   { return uint64(i<<1) ^ uint64(i>>63) }
func zig32(i int32) uint64 { return uint64(uint32(i<<1) ^ uint32(i>>31)) }

var ctypes = map[byte]byte{BOOL: 1, BYTE: 3, I16: 4, I32: 5, I64: 6, DOUBLE: 7, STRING: 8, LIST: 9, SET: 10, MAP: 11, STRUCT: 12}

// RefCompact encodes a value; le selects the byte order of doubles (the specification
// and the reference Java library use little endian).
func RefCompact(b []byte, v *Val) []byte {
	switch v.T {
	case BOOL:
		if v.B {
			return append(b, 1)
		}
		return append(b, 2)
	case BYTE:
		return append(b, byte(v.I))
	case I16, I32:
		return uvar(b, zig32(int32(v.I)))
	case I64:
		return uvar(b, zig(v.I))
	case DOUBLE:
		return binary.LittleEndian.AppendUint64(b, math.Float64bits(v.D))
	case STRING:
		b = uvar(b, uint64(uint32(announced(v, len(v.S)))))
		return append(b, v.S...)
	case STRUCT:
		last := int16(0)
		for _, f := range v.Fields {
			ct := ctypes[f.V.T]
			if f.V.T == BOOL && !f.V.B {
				ct = 2
			}
			if d := int(f.ID) - int(last); d > 0 && d <= 15 {
				b = append(b, byte(d)<<4|ct)
			} else {
				b = append(b, ct)
				b = uvar(b, zig32(int32(f.ID)))
			}
			last = f.ID
			if f.V.T != BOOL {
				b = RefCompact(b, f.V)
			}
		}
		return append(b, 0)
	case LIST, SET:
		if n := announced(v, len(v.Elems)); n >= 0 && n <= 14 {
			b = append(b, byte(n)<<4|ctypes[v.ET])
		} else {
			b = append(b, 0xf0|ctypes[v.ET])
			b = uvar(b, uint64(uint32(n)))
		}
		for _, x := range v.Elems {
			b = RefCompact(b, x)
		}
		return b
	case MAP:
		n := announced(v, len(v.Elems))
		b = uvar(b, uint64(uint32(n)))
		if n == 0 {
			return b
		}
		b = append(b, ctypes[v.KT]<<4|ctypes[v.ET])
		for i, x := range v.Elems {
			b = RefCompact(b, v.Keys[i])
			b = RefCompact(b, x)
		}
		return b
	}
	panic("bad")
}

func RefCompactMsg(m *Msg) []byte {
	b := []byte{0x82, byte(m.Type)<<5 | 1}
	b = uvar(b, uint64(uint32(m.Seq)))
	b = uvar(b, uint64(len(m.Name)))
	b = append(b, m.Name...)
	return RefCompact(b, m.Body)
}

// ---- the JSON shapes of this library (arrays for containers, objects for structs)

var jtypes = map[byte]string{BOOL: "tf", BYTE: "i8", I16: "i16", I32: "i32", I64: "i64", DOUBLE: "dbl", STRING: "str", STRUCT: "rec", MAP: "map", SET: "set", LIST: "lst"}

func num(i int64) json.Number { return json.Number(strconv.FormatInt(i, 10)) }

// CheckJSON compares a decoded JSON tree (json.Number for numbers) with the value.
func CheckJSON(j interface{}, v *Val, simple bool, path string) error {
	bad := func() error { return mm(path, "JSON has %s for %s", clipj(j), v) }
	switch v.T {
	case BOOL:
		if x, ok := j.(bool); !ok || x != v.B {
			return bad()
		}
	case BYTE:
		if j != num(int64(byte(v.I))) && j != num(v.I) {
			return bad()
		}
	case I16, I32, I64:
		if j != num(v.I) {
			return bad()
		}
	case DOUBLE:
		switch x := j.(type) {
		case json.Number:
			f, err := strconv.ParseFloat(string(x), 64)
			if err != nil || !SameFloat(f, v.D) {
				return bad()
			}
		case string:
			if !(x == "NaN" && math.IsNaN(v.D) || x == "Infinity" && math.IsInf(v.D, 1) || x == "-Infinity" && math.IsInf(v.D, -1)) {
				return bad()
			}
		default:
			return bad()
		}
	case STRING:
		w := v.S
		if v.Bin {
			w = base64.StdEncoding.EncodeToString([]byte(v.S))
		}
		if j != w {
			return bad()
		}
	case STRUCT:
		o, ok := j.(map[string]interface{})
		if !ok || len(o) != len(v.Fields) {
			return bad()
		}
		for _, f := range v.Fields {
			k := f.Name
			if !simple {
				k = strconv.Itoa(int(f.ID))
			}
			x, ok := o[k]
			if !ok {
				return mm(path, "JSON object has no key %q: %s", k, clipj(j))
			}
			if !simple {
				w, ok := x.(map[string]interface{})
				if !ok || len(w) != 1 {
					return mm(path, "field %s is not a one-entry {type: value} object: %s", k, clipj(x))
				}
				x, ok = w[jtypes[f.V.T]]
				if !ok {
					return mm(path, "field %s is not tagged %q: %s", k, jtypes[f.V.T], clipj(w))
				}
			}
			if e := CheckJSON(x, f.V, simple, path+"."+k); e != nil {
				return e
			}
		}
	case LIST, SET:
		a, ok := j.([]interface{})
		if !ok || len(a) != len(v.Elems)+2 || a[0] != num(int64(v.ET)) || a[1] != num(int64(len(v.Elems))) {
			return bad()
		}
		for i, x := range v.Elems {
			if e := CheckJSON(a[2+i], x, simple, fmt.Sprintf("%s[%d]", path, i)); e != nil {
				return e
			}
		}
	case MAP:
		a, ok := j.([]interface{})
		if !ok || len(a) != 2*len(v.Elems)+3 || a[2] != num(int64(len(v.Elems))) {
			return bad()
		}
		if simple {
			if a[0] != num(int64(v.KT)) || a[1] != num(int64(v.ET)) {
				return bad()
			}
		} else if a[0] != jtypes[v.KT] || a[1] != jtypes[v.ET] {
			return bad()
		}
		for i, x := range v.Elems {
			if e := CheckJSON(a[3+2*i], v.Keys[i], simple, fmt.Sprintf("%s.key%d", path, i)); e != nil {
				return e
			}
			if e := CheckJSON(a[4+2*i], x, simple, fmt.Sprintf("%s.val%d", path, i)); e != nil {
				return e
			}
		}
	}
	return nil
}

func clipj(j interface{}) string {
	b, _ := json.Marshal(j)
	if len(b) > 200 {
		b = append(b[:200], "..."...)
	}
	return string(b)
}
