// Package vm has the value model shared by the protocol checks: random Thrift values,
// drivers that write and read them through the public TProtocol API, and independent
// reference encoders for the wire formats.
package vm

import (
	"fmt"
	"io"
	"math"
	"pbt"
	"strconv"
	"strings"
	"thrift"
	"unicode/utf8"
)

// Wire type codes, as in the Thrift specification.
const (
	STOP   = 0
	BOOL   = 2
	BYTE   = 3
	DOUBLE = 4
	I16    = 6
	I32    = 8
	I64    = 10
	STRING = 11
	STRUCT = 12
	MAP    = 13
	SET    = 14
	LIST   = 15
)

type Val struct {
	T      byte
	B      bool
	I      int64
	D      float64
	S      string
	Bin    bool // STRING carried as bytes
	KT, ET byte
	KB, EB bool // announced as BINARY, which is STRING on the wire
	Keys   []*Val
	Elems  []*Val
	Fields []Fld
	Name   string
}

type Fld struct {
	ID   int16
	Name string
	V    *Val
}

type Type struct {
	T    byte
	Bin  bool
	K, E *Type
}

type Opts struct {
	Depth     int
	Text      bool // strings must be valid UTF-8
	ScalarKey bool
	Wild      bool // field ids anywhere in the int16 range, any order
	Binary    bool
	MaxStr    int
}

var scalarTypes = []byte{I32, BOOL, BYTE, I16, I64, DOUBLE, STRING, STRING}

func GenType(t *pbt.T, o Opts, depth int) *Type {
	if depth <= 0 || t.Chance(3, 5) {
		i := t.N(8)
		return &Type{T: scalarTypes[i], Bin: i == 7}
	}
	switch t.Pick(3, 2, 2, 2) {
	case 0:
		return &Type{T: STRUCT}
	case 1:
		return &Type{T: LIST, E: GenType(t, o, depth-1)}
	case 2:
		return &Type{T: SET, E: GenType(t, o, depth-1)}
	}
	kd := depth - 1
	if o.ScalarKey {
		kd = 0
	}
	return &Type{T: MAP, K: GenType(t, o, kd), E: GenType(t, o, depth-1)}
}

func Gen(t *pbt.T, o Opts) *Val {
	if o.MaxStr == 0 {
		o.MaxStr = 600
	}
	return GenVal(t, o, GenType(t, o, o.Depth), o.Depth)
}

func GenVal(t *pbt.T, o Opts, ty *Type, depth int) *Val {
	v := &Val{T: ty.T, Bin: ty.Bin}
	switch ty.T {
	case BOOL:
		v.B = t.Bool()
	case BYTE:
		v.I = int64(int8(t.I64()))
	case I16:
		v.I = int64(int16(t.I64()))
	case I32:
		v.I = int64(int32(t.I64()))
	case I64:
		v.I = t.I64()
	case DOUBLE:
		v.D = t.F64()
	case STRING:
		if ty.Bin || !o.Text {
			v.S = string(t.Bytes(o.MaxStr))
		} else {
			v.S = t.Text(o.MaxStr)
		}
	case STRUCT:
		return GenStruct(t, o, depth)
	case LIST, SET:
		v.ET, v.EB = ty.E.T, ty.E.Bin
		max, mean := 10, 3
		if isScalar(ty.E.T) && t.Chance(1, 10) {
			max, mean = 40, 20 // long collections use another header form
		}
		t.Repeat(max, mean, func(int) { v.Elems = append(v.Elems, GenVal(t, o, ty.E, depth-1)) })
	case MAP:
		v.KT, v.ET = ty.K.T, ty.E.T
		v.KB, v.EB = ty.K.Bin, ty.E.Bin
		t.Repeat(12, 2, func(int) {
			v.Keys = append(v.Keys, GenVal(t, o, ty.K, depth-1))
			v.Elems = append(v.Elems, GenVal(t, o, ty.E, depth-1))
		})
	}
	return v
}

func isScalar(t byte) bool { return t < STRUCT }

func GenStruct(t *pbt.T, o Opts, depth int) *Val {
	if o.MaxStr == 0 {
		o.MaxStr = 600
	}
	v := &Val{T: STRUCT, Name: "S" + strconv.Itoa(t.Int(0, 9))}
	used := map[int16]bool{}
	id := int16(0)
	n := 0
	t.Repeat(9, 3, func(int) {
		switch t.Pick(6, 3, 2) {
		case 0:
			id++
		case 1:
			id += int16(t.Int(1, 40))
		default:
			if o.Wild {
				id = int16(t.I64())
			} else {
				id = int16(t.Int(1, 32767))
			}
		}
		if id < 0 && !o.Wild {
			id = 1
		}
		for used[id] {
			id++
			if id < 0 && !o.Wild {
				id = 1
			}
		}
		used[id] = true
		n++
		ty := GenType(t, o, depth-1)
		v.Fields = append(v.Fields, Fld{ID: id, Name: fmt.Sprintf("f%d%s", n, []string{"", "_x", "Name", "é"}[t.N(4)]), V: GenVal(t, o, ty, depth-1)})
	})
	return v
}

func (v *Val) String() string { var sb strings.Builder; v.str(&sb); return sb.String() }
func (v *Val) str(sb *strings.Builder) {
	switch v.T {
	case BOOL:
		fmt.Fprintf(sb, "%v", v.B)
	case BYTE, I16, I32, I64:
		fmt.Fprintf(sb, "%s:%d", TypeName(v.T), v.I)
	case DOUBLE:
		fmt.Fprintf(sb, "dbl:%v", v.D)
	case STRING:
		if v.Bin {
			sb.WriteString("bin:")
		}
		fmt.Fprintf(sb, "%q", v.S)
	case STRUCT:
		sb.WriteString(v.Name + "{")
		for i, f := range v.Fields {
			if i > 0 {
				sb.WriteString(", ")
			}
			fmt.Fprintf(sb, "%d:%s=", f.ID, f.Name)
			f.V.str(sb)
		}
		sb.WriteString("}")
	case LIST, SET:
		fmt.Fprintf(sb, "%s<%s>[", TypeName(v.T), TypeName(v.ET))
		for i, e := range v.Elems {
			if i > 0 {
				sb.WriteString(", ")
			}
			e.str(sb)
		}
		sb.WriteString("]")
	case MAP:
		fmt.Fprintf(sb, "map<%s,%s>{", TypeName(v.KT), TypeName(v.ET))
		for i, e := range v.Elems {
			if i > 0 {
				sb.WriteString(", ")
			}
			v.Keys[i].str(sb)
			sb.WriteString("->")
			e.str(sb)
		}
		sb.WriteString("}")
	}
}

func TypeName(t byte) string {
	switch t {
	case STOP:
		return "stop"
	case BOOL:
		return "bool"
	case BYTE:
		return "i8"
	case DOUBLE:
		return "double"
	case I16:
		return "i16"
	case I32:
		return "i32"
	case I64:
		return "i64"
	case STRING:
		return "string"
	case STRUCT:
		return "struct"
	case MAP:
		return "map"
	case SET:
		return "set"
	case LIST:
		return "list"
	}
	return "type" + strconv.Itoa(int(t))
}

// Composite reports nesting and size facts used for the non-triviality rules.
func (v *Val) Composite() bool { return v.T >= STRUCT && (len(v.Fields) > 0 || len(v.Elems) > 0) }
func (v *Val) Depth() int {
	d := 0
	for _, f := range v.Fields {
		if x := f.V.Depth(); x > d {
			d = x
		}
	}
	for _, e := range append(append([]*Val{}, v.Keys...), v.Elems...) {
		if x := e.Depth(); x > d {
			d = x
		}
	}
	if v.T >= STRUCT {
		d++
	}
	return d
}
func (v *Val) HasInvalidText() bool {
	if v.T == STRING && !v.Bin && !utf8.ValidString(v.S) {
		return true
	}
	for _, f := range v.Fields {
		if f.V.HasInvalidText() {
			return true
		}
	}
	for i, e := range v.Elems {
		if e.HasInvalidText() || (v.T == MAP && v.Keys[i].HasInvalidText()) {
			return true
		}
	}
	return false
}

// ---- protocols under test

type Proto struct {
	Name   string
	New    func(thrift.TTransport) thrift.TProtocol
	Text   bool // text protocol: strings must be UTF-8
	Named  bool // fields carry names, no ids nor types
	NoType bool // empty maps do not carry their types
	Lax    bool // Read does not compare what it reads
}

var (
	Binary        = Proto{Name: "binary", New: func(t thrift.TTransport) thrift.TProtocol { return thrift.NewTBinaryProtocolTransport(t) }}
	BinaryStrict  = Proto{Name: "binary-strict", New: func(t thrift.TTransport) thrift.TProtocol { return thrift.NewTBinaryProtocol(t, true, true) }}
	BinaryLenient = Proto{Name: "binary-old", New: func(t thrift.TTransport) thrift.TProtocol { return thrift.NewTBinaryProtocol(t, false, false) }}
	Compact       = Proto{Name: "compact", New: func(t thrift.TTransport) thrift.TProtocol { return thrift.NewTCompactProtocol(t) }, NoType: true}
	JSON          = Proto{Name: "json", New: func(t thrift.TTransport) thrift.TProtocol { return thrift.NewTJSONProtocol(t) }, Text: true}
	SimpleJSON    = Proto{Name: "simplejson", New: func(t thrift.TTransport) thrift.TProtocol { return thrift.NewTSimpleJSONProtocol(t) }, Text: true, Named: true}
	All           = []Proto{BinaryStrict, Compact, JSON, SimpleJSON, BinaryLenient, Binary}
	Typed         = []Proto{BinaryStrict, Compact, JSON, BinaryLenient}
)

// ---- writing through the API

func Write(p thrift.TProtocol, v *Val) error {
	switch v.T {
	case BOOL:
		return E(p.WriteBool(v.B))
	case BYTE:
		return E(p.WriteByte(byte(v.I)))
	case I16:
		return E(p.WriteI16(int16(v.I)))
	case I32:
		return E(p.WriteI32(int32(v.I)))
	case I64:
		return E(p.WriteI64(v.I))
	case DOUBLE:
		return E(p.WriteDouble(v.D))
	case STRING:
		if v.Bin {
			// the caller's bytes are the caller's: not changed, and not needed afterwards
			b := append(append(make([]byte, 0, len(v.S)+4), v.S...), 0xa5, 0xa5, 0xa5, 0xa5)
			e := writeBinary(p, b[:len(v.S)])
			if string(b) != v.S+"\xa5\xa5\xa5\xa5" {
				return mm("binary", "writing %q changed the caller's bytes to %q", v.S, b)
			}
			for i := range b {
				b[i] ^= 0xff
			}
			return E(e)
		}
		return E(p.WriteString(v.S))
	case STRUCT:
		if e := p.WriteStructBegin(v.Name); e != nil {
			return e
		}
		for _, f := range v.Fields {
			if e := p.WriteFieldBegin(f.Name, decl(f.V.T, f.V.Bin && f.ID%4 != 0), f.ID); e != nil {
				return e
			}
			if e := Write(p, f.V); e != nil {
				return e
			}
			if e := p.WriteFieldEnd(); e != nil {
				return e
			}
		}
		if e := p.WriteFieldStop(); e != nil {
			return e
		}
		return E(p.WriteStructEnd())
	case LIST:
		if e := p.WriteListBegin(decl(v.ET, v.EB), announced(v, len(v.Elems))); e != nil {
			return e
		}
		for _, x := range v.Elems {
			if e := Write(p, x); e != nil {
				return e
			}
		}
		return E(p.WriteListEnd())
	case SET:
		if e := p.WriteSetBegin(decl(v.ET, v.EB), announced(v, len(v.Elems))); e != nil {
			return e
		}
		for _, x := range v.Elems {
			if e := Write(p, x); e != nil {
				return e
			}
		}
		return E(p.WriteSetEnd())
	case MAP:
		if e := p.WriteMapBegin(decl(v.KT, v.KB), decl(v.ET, v.EB), announced(v, len(v.Elems))); e != nil {
			return e
		}
		for i, x := range v.Elems {
			if e := Write(p, v.Keys[i]); e != nil {
				return e
			}
			if e := Write(p, x); e != nil {
				return e
			}
		}
		return E(p.WriteMapEnd())
	}
	panic("bad model type")
}

// Source hands data out in pieces of at most N bytes and ends after them with Err.
type Source struct {
	B   []byte
	N   int
	Err error
}

func (r *Source) Read(b []byte) (int, error) {
	if len(r.B) == 0 {
		return 0, r.Err
	}
	n := len(r.B)
	if r.N > 0 && n > r.N {
		n = r.N
	}
	n = copy(b, r.B[:n])
	r.B = r.B[n:]
	return n, nil
}

// writeBinary writes some of the values with the binary protocol's call that takes a reader.
func writeBinary(p thrift.TProtocol, b []byte) thrift.TProtocolException {
	bp, ok := p.(*thrift.TBinaryProtocol)
	if !ok || len(b)%3 != 1 {
		return p.WriteBinary(b)
	}
	src := &Source{B: append(append([]byte{}, b...), "more"...), N: len(b) % 5, Err: io.EOF}
	e := bp.WriteBinaryFromReader(src, len(b))
	if e == nil && string(src.B) != "more" {
		return thrift.NewTProtocolException(0, "WriteBinaryFromReader took more than it was to take")
	}
	return e
}

// decl is the type a writer announces: generated code announces BINARY for binary
// data, which the formats do not tell from STRING.
func decl(t byte, bin bool) thrift.TType {
	if bin && t == STRING {
		return thrift.BINARY
	}
	return thrift.TType(t)
}

// E turns the library's error interface into error without making a typed nil.
func E(e thrift.TProtocolException) error {
	if e == nil {
		return nil
	}
	return e
}

type Msg struct {
	Name string
	Type thrift.TMessageType
	Seq  int32
	Body *Val // a struct
}

func (m *Msg) String() string {
	return fmt.Sprintf("message(%q type=%d seq=%d %s)", m.Name, int(m.Type), m.Seq, m.Body)
}

func GenMsg(t *pbt.T, o Opts) *Msg {
	name := t.Text(300)
	if t.Chance(1, 3) {
		name = "ping"
	}
	return &Msg{Name: name, Type: thrift.TMessageType(t.Int(1, 4)), Seq: int32(t.I64()), Body: GenStruct(t, o, o.Depth)}
}

func WriteMsg(p thrift.TProtocol, m *Msg) error {
	if e := p.WriteMessageBegin(m.Name, m.Type, m.Seq); e != nil {
		return e
	}
	if e := Write(p, m.Body); e != nil {
		return e
	}
	return E(p.WriteMessageEnd())
}

// Mismatch is a difference between what was read and what was expected.
type Mismatch struct{ S string }

func (m *Mismatch) Error() string { return m.S }

func mm(path, format string, a ...interface{}) error {
	return &Mismatch{path + ": " + fmt.Sprintf(format, a...)}
}

func ReadMsg(p thrift.TProtocol, pr Proto, want *Msg) error {
	n, ty, seq, e := p.ReadMessageBegin()
	if e != nil {
		return e
	}
	if !pr.Lax && (n != want.Name || ty != want.Type || seq != want.Seq) {
		return mm("message", "header (%q,%d,%d), want (%q,%d,%d)", n, int(ty), seq, want.Name, int(want.Type), want.Seq)
	}
	if e := Read(p, pr, want.Body, "body"); e != nil {
		return e
	}
	return E(p.ReadMessageEnd())
}

func SameFloat(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || math.IsNaN(a) && math.IsNaN(b)
}

// held keeps what a reader returned, to see that it stays as it is. Every other one is
// overwritten instead, as its owner may, to see that the reader does not use it any more.
type held struct {
	got  [][]byte
	want []string
	path []string
	n    int
}

func (h *held) add(b []byte, want, path string) {
	h.n++
	if h.n%2 == 0 {
		b = b[:cap(b)]
		for i := range b {
			b[i] ^= 0xff
		}
		return
	}
	h.got, h.want, h.path = append(h.got, b), append(h.want, want), append(h.path, path)
}

func (h *held) check() error {
	for i, b := range h.got {
		if string(b) != h.want[i] {
			return mm(h.path[i], "binary %q became %q when more was read", h.want[i], b)
		}
	}
	return nil
}

// Read reads a value through the API and compares it with want as it goes.
func Read(p thrift.TProtocol, pr Proto, want *Val, path string) error {
	var h held
	if e := read(p, pr, want, path, &h); e != nil {
		return e
	}
	return h.check()
}

func read(p thrift.TProtocol, pr Proto, want *Val, path string, h *held) error {
	switch want.T {
	case BOOL:
		x, e := p.ReadBool()
		if e != nil {
			return e
		}
		if !pr.Lax && x != want.B {
			return mm(path, "bool %v, want %v", x, want.B)
		}
	case BYTE:
		x, e := p.ReadByte()
		if e != nil {
			return e
		}
		if !pr.Lax && x != byte(want.I) {
			return mm(path, "byte %d, want %d", x, byte(want.I))
		}
	case I16:
		x, e := p.ReadI16()
		if e != nil {
			return e
		}
		if !pr.Lax && int64(x) != want.I {
			return mm(path, "i16 %d, want %d", x, want.I)
		}
	case I32:
		x, e := p.ReadI32()
		if e != nil {
			return e
		}
		if !pr.Lax && int64(x) != want.I {
			return mm(path, "i32 %d, want %d", x, want.I)
		}
	case I64:
		x, e := p.ReadI64()
		if e != nil {
			return e
		}
		if !pr.Lax && x != want.I {
			return mm(path, "i64 %d, want %d", x, want.I)
		}
	case DOUBLE:
		x, e := p.ReadDouble()
		if e != nil {
			return e
		}
		if !pr.Lax && !(SameFloat(x, want.D) && (pr.Text || math.Float64bits(x) == math.Float64bits(want.D))) {
			return mm(path, "double %v (%x), want %v (%x)", x, math.Float64bits(x), want.D, math.Float64bits(want.D))
		}
	case STRING:
		if want.Bin {
			x, e := p.ReadBinary()
			if e != nil {
				return e
			}
			if !pr.Lax && string(x) != want.S {
				return mm(path, "binary %q, want %q", x, want.S)
			}
			if !pr.Lax {
				h.add(x, want.S, path)
			}
		} else {
			x, e := p.ReadString()
			if e != nil {
				return e
			}
			if !pr.Lax && x != want.S {
				return mm(path, "string %q, want %q", x, want.S)
			}
		}
	case STRUCT:
		if _, e := p.ReadStructBegin(); e != nil {
			return e
		}
		for i, f := range want.Fields {
			n, ty, id, e := p.ReadFieldBegin()
			if e != nil {
				return e
			}
			fp := fmt.Sprintf("%s.%d", path, f.ID)
			if pr.Named {
				if n != f.Name || byte(ty) == STOP {
					return mm(fp, "field #%d name %q type %d, want name %q", i, n, int(ty), f.Name)
				}
			} else if byte(ty) != f.V.T || id != f.ID {
				return mm(fp, "field #%d (type %d, id %d), want (type %d, id %d)", i, int(ty), id, f.V.T, f.ID)
			}
			if e := read(p, pr, f.V, fp, h); e != nil {
				return e
			}
			if e := p.ReadFieldEnd(); e != nil {
				return e
			}
		}
		n, ty, id, e := p.ReadFieldBegin()
		if e != nil {
			return e
		}
		if byte(ty) != STOP {
			return mm(path, "extra field (%q, type %d, id %d) after %d fields", n, int(ty), id, len(want.Fields))
		}
		return E(p.ReadStructEnd())
	case LIST, SET:
		var et thrift.TType
		var n int
		var e thrift.TProtocolException
		if want.T == LIST {
			et, n, e = p.ReadListBegin()
		} else {
			et, n, e = p.ReadSetBegin()
		}
		if e != nil {
			return e
		}
		if !pr.Lax && (n != len(want.Elems) || byte(et) != want.ET) {
			return mm(path, "%s of %d x type %d, want %d x type %d", TypeName(want.T), n, int(et), len(want.Elems), want.ET)
		}
		for i, x := range want.Elems {
			if e := read(p, pr, x, fmt.Sprintf("%s[%d]", path, i), h); e != nil {
				return e
			}
		}
		if want.T == LIST {
			return E(p.ReadListEnd())
		}
		return E(p.ReadSetEnd())
	case MAP:
		kt, vt, n, e := p.ReadMapBegin()
		if e != nil {
			return e
		}
		if !pr.Lax && n != len(want.Elems) {
			return mm(path, "map of %d entries, want %d", n, len(want.Elems))
		}
		if !pr.Lax && (byte(kt) != want.KT || byte(vt) != want.ET) && !(n == 0 && pr.NoType) {
			return mm(path, "map<%d,%d>, want map<%d,%d>", int(kt), int(vt), want.KT, want.ET)
		}
		for i, x := range want.Elems {
			if e := read(p, pr, want.Keys[i], fmt.Sprintf("%s.key%d", path, i), h); e != nil {
				return e
			}
			if e := read(p, pr, x, fmt.Sprintf("%s.val%d", path, i), h); e != nil {
				return e
			}
		}
		return E(p.ReadMapEnd())
	}
	return nil
}
