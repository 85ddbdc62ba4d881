package vm

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"thrift"
)

// Walk reads a value of the announced type through the API, following the types and
// sizes found on the wire, and stops at the first error. budget bounds the number of
// values (a lying size cannot make the harness itself run away).
func Walk(p thrift.TProtocol, ty byte, bin func() bool, budget *int) (*Val, error) {
	*budget--
	if *budget < 0 {
		panic(Budget{"more values were read than the input can hold"})
	}
	v := &Val{T: ty}
	switch ty {
	case BOOL:
		x, e := p.ReadBool()
		v.B = x
		return v, E(e)
	case BYTE:
		x, e := p.ReadByte()
		v.I = int64(int8(x))
		return v, E(e)
	case I16:
		x, e := p.ReadI16()
		v.I = int64(x)
		return v, E(e)
	case I32:
		x, e := p.ReadI32()
		v.I = int64(x)
		return v, E(e)
	case I64:
		x, e := p.ReadI64()
		v.I = x
		return v, E(e)
	case DOUBLE:
		x, e := p.ReadDouble()
		v.D = x
		return v, E(e)
	case STRING:
		if bin() {
			x, e := p.ReadBinary()
			v.S, v.Bin = string(x), true
			return v, E(e)
		}
		x, e := p.ReadString()
		v.S = x
		return v, E(e)
	case STRUCT:
		if _, e := p.ReadStructBegin(); e != nil {
			return v, e
		}
		for {
			n, ft, id, e := p.ReadFieldBegin()
			if e != nil {
				return v, e
			}
			if byte(ft) == STOP {
				break
			}
			f, err := Walk(p, byte(ft), bin, budget)
			if err != nil {
				return v, err
			}
			v.Fields = append(v.Fields, Fld{id, n, f})
			if e := p.ReadFieldEnd(); e != nil {
				return v, e
			}
		}
		return v, E(p.ReadStructEnd())
	case LIST, SET:
		var et thrift.TType
		var n int
		var e thrift.TProtocolException
		if ty == LIST {
			et, n, e = p.ReadListBegin()
		} else {
			et, n, e = p.ReadSetBegin()
		}
		if e != nil {
			return v, e
		}
		v.ET = byte(et)
		for i := 0; i < n; i++ {
			x, err := Walk(p, v.ET, bin, budget)
			if err != nil {
				return v, err
			}
			v.Elems = append(v.Elems, x)
		}
		if ty == LIST {
			return v, E(p.ReadListEnd())
		}
		return v, E(p.ReadSetEnd())
	case MAP:
		kt, vt, n, e := p.ReadMapBegin()
		if e != nil {
			return v, e
		}
		v.KT, v.ET = byte(kt), byte(vt)
		for i := 0; i < n; i++ {
			k, err := Walk(p, v.KT, bin, budget)
			if err != nil {
				return v, err
			}
			x, err := Walk(p, v.ET, bin, budget)
			if err != nil {
				return v, err
			}
			v.Keys, v.Elems = append(v.Keys, k), append(v.Elems, x)
		}
		return v, E(p.ReadMapEnd())
	}
	return v, fmt.Errorf("harness: type %d", ty)
}

// ---- reference decoders, from the specifications

type cursor struct {
	b   []byte
	pos int
}

var errShort = errors.New("data ends early")
var errBad = errors.New("malformed")

func (c *cursor) take(n int) ([]byte, error) {
	if n < 0 {
		return nil, errBad
	}
	if n > len(c.b)-c.pos {
		return nil, errShort
	}
	x := c.b[c.pos : c.pos+n]
	c.pos += n
	return x, nil
}

func (c *cursor) u32() (int, error) {
	x, e := c.take(4)
	if e != nil {
		return 0, e
	}
	return int(int32(binary.BigEndian.Uint32(x))), nil
}

// DecodeBinary decodes one value of type ty and says how many bytes it took.
func DecodeBinary(b []byte, ty byte) (*Val, int, error) {
	c := &cursor{b: b}
	v, e := c.bin(ty)
	return v, c.pos, e
}

func (c *cursor) bin(ty byte) (*Val, error) {
	v := &Val{T: ty}
	switch ty {
	case BOOL, BYTE:
		x, e := c.take(1)
		if e != nil {
			return nil, e
		}
		if ty == BOOL {
			v.B = x[0] == 1
		} else {
			v.I = int64(int8(x[0]))
		}
	case I16:
		x, e := c.take(2)
		if e != nil {
			return nil, e
		}
		v.I = int64(int16(binary.BigEndian.Uint16(x)))
	case I32:
		x, e := c.u32()
		if e != nil {
			return nil, e
		}
		v.I = int64(x)
	case I64, DOUBLE:
		x, e := c.take(8)
		if e != nil {
			return nil, e
		}
		u := binary.BigEndian.Uint64(x)
		if ty == I64 {
			v.I = int64(u)
		} else {
			v.D = math.Float64frombits(u)
		}
	case STRING:
		n, e := c.u32()
		if e != nil {
			return nil, e
		}
		x, e := c.take(n)
		if e != nil {
			return nil, e
		}
		v.S = string(x)
	case STRUCT:
		for {
			t, e := c.take(1)
			if e != nil {
				return nil, e
			}
			if t[0] == STOP {
				return v, nil
			}
			id, e := c.take(2)
			if e != nil {
				return nil, e
			}
			f, e := c.bin(t[0])
			if e != nil {
				return nil, e
			}
			v.Fields = append(v.Fields, Fld{ID: int16(binary.BigEndian.Uint16(id)), V: f})
		}
	case LIST, SET, MAP:
		if ty == MAP {
			k, e := c.take(1)
			if e != nil {
				return nil, e
			}
			v.KT = k[0]
		}
		t, e := c.take(1)
		if e != nil {
			return nil, e
		}
		v.ET = t[0]
		n, e := c.u32()
		if e != nil {
			return nil, e
		}
		return v, c.elems(v, n, c.bin)
	default:
		return nil, errBad
	}
	return v, nil
}

func (c *cursor) elems(v *Val, n int, dec func(byte) (*Val, error)) error {
	if n < 0 {
		return errBad
	}
	for i := 0; i < n; i++ {
		if v.T == MAP {
			k, e := dec(v.KT)
			if e != nil {
				return e
			}
			v.Keys = append(v.Keys, k)
		}
		x, e := dec(v.ET)
		if e != nil {
			return e
		}
		v.Elems = append(v.Elems, x)
	}
	return nil
}

// DecodeCompact decodes one value of type ty and says how many bytes it took.
func DecodeCompact(b []byte, ty byte) (*Val, int, error) {
	c := &cursor{b: b}
	v, e := c.cmp(ty)
	return v, c.pos, e
}

var fromCompact = map[byte]byte{1: BOOL, 2: BOOL, 3: BYTE, 4: I16, 5: I32, 6: I64, 7: DOUBLE, 8: STRING, 9: LIST, 10: SET, 11: MAP, 12: STRUCT}

func (c *cursor) varint() (uint64, error) {
	var u uint64
	for s := uint(0); s < 70; s += 7 {
		x, e := c.take(1)
		if e != nil {
			return 0, e
		}
		u |= uint64(x[0]&0x7f) << s
		if x[0] < 0x80 {
			return u, nil
		}
	}
	return 0, errBad
}

func unzig(u uint64) int64   { return int64(u>>1) ^ -int64(u&1) }
func unzig32(u uint32) int32 { return int32(u>>1) ^ -int32(u&1) }

func (c *cursor) cmp(ty byte) (*Val, error) {
	v := &Val{T: ty}
	switch ty {
	case BOOL, BYTE:
		x, e := c.take(1)
		if e != nil {
			return nil, e
		}
		if ty == BOOL {
			v.B = x[0] == 1
		} else {
			v.I = int64(int8(x[0]))
		}
	case I16, I32, I64:
		u, e := c.varint()
		if e != nil {
			return nil, e
		}
		switch ty {
		case I16:
			v.I = int64(int16(unzig32(uint32(u))))
		case I32:
			v.I = int64(unzig32(uint32(u)))
		default:
			v.I = unzig(u)
		}
	case DOUBLE:
		x, e := c.take(8)
		if e != nil {
			return nil, e
		}
		v.D = math.Float64frombits(binary.LittleEndian.Uint64(x))
	case STRING:
		n, e := c.varint()
		if e != nil {
			return nil, e
		}
		x, e := c.take(int(int32(n)))
		if e != nil {
			return nil, e
		}
		v.S = string(x)
	case STRUCT:
		last := int16(0)
		for {
			t, e := c.take(1)
			if e != nil {
				return nil, e
			}
			if t[0]&15 == STOP {
				return v, nil
			}
			id := last + int16(t[0]>>4)
			if t[0]>>4 == 0 {
				u, e := c.varint()
				if e != nil {
					return nil, e
				}
				id = int16(unzig32(uint32(u)))
			}
			last = id
			ft, ok := fromCompact[t[0]&15]
			if !ok {
				return nil, errBad
			}
			var f *Val
			if ft == BOOL {
				f = &Val{T: BOOL, B: t[0]&15 == 1}
			} else if f, e = c.cmp(ft); e != nil {
				return nil, e
			}
			v.Fields = append(v.Fields, Fld{ID: id, V: f})
		}
	case LIST, SET:
		t, e := c.take(1)
		if e != nil {
			return nil, e
		}
		n := int(t[0] >> 4)
		if n == 15 {
			u, e := c.varint()
			if e != nil {
				return nil, e
			}
			n = int(int32(u))
		}
		et, ok := fromCompact[t[0]&15]
		if !ok && !(t[0]&15 == STOP && n == 0) {
			return nil, errBad
		}
		v.ET = et
		return v, c.elems(v, n, c.cmp)
	case MAP:
		u, e := c.varint()
		if e != nil {
			return nil, e
		}
		n := int(int32(u))
		if n == 0 {
			return v, nil
		}
		t, e := c.take(1)
		if e != nil {
			return nil, e
		}
		kt, ok1 := fromCompact[t[0]>>4]
		vt, ok2 := fromCompact[t[0]&15]
		if !ok1 || !ok2 {
			return nil, errBad
		}
		v.KT, v.ET = kt, vt
		return v, c.elems(v, n, c.cmp)
	default:
		return nil, errBad
	}
	return v, nil
}

// Same compares two decoded values (field names and binary-ness aside).
func Same(a, b *Val) bool {
	if a.T != b.T || a.B != b.B || a.I != b.I || a.S != b.S || !SameFloat(a.D, b.D) || a.KT != b.KT || a.ET != b.ET || len(a.Elems) != len(b.Elems) || len(a.Fields) != len(b.Fields) {
		return false
	}
	for i := range a.Elems {
		if !Same(a.Elems[i], b.Elems[i]) || a.T == MAP && !Same(a.Keys[i], b.Keys[i]) {
			return false
		}
	}
	for i := range a.Fields {
		if a.Fields[i].ID != b.Fields[i].ID || !Same(a.Fields[i].V, b.Fields[i].V) {
			return false
		}
	}
	return true
}
