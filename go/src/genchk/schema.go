// Package genchk checks the code generator: random Thrift programs (parse trees) are given
// to the repository's generator, compiled by the headers of /verif/gen, and what it writes is
// type checked, compiled, and run against the library.
package genchk

import (
	"fmt"
	"go/token"
	"pbt"
	"strconv"
	"strings"
)

type Ty struct {
	K   string // bool byte i16 i32 i64 double string binary list set map named void
	Key *Ty
	El  *Ty
	Ref *Decl
}

// True follows typedefs.
func (t *Ty) True() *Ty {
	for t.K == "named" && t.Ref.Kind == "typedef" {
		t = t.Ref.Of
	}
	return t
}

// Is tells what a true type is: base types by name, or enum, struct, exception, list, set, map.
func (t *Ty) Is() string {
	t = t.True()
	if t.K == "named" {
		return t.Ref.Kind
	}
	return t.K
}

type Decl struct {
	P      *Program
	Kind   string // enum typedef struct exception
	Name   string
	Doc    string
	Values []EnumValue
	Of     *Ty
	Fields []*Field
	Depth  int // struct nesting below
}

type EnumValue struct {
	Name  string
	Given bool // written with its value
	V     int64
}

const (
	Required = 0
	Optional = 1
	Default  = 2
)

type Field struct {
	ID   int
	Req  int
	Name string
	Ty   *Ty
	Def  *CV
	Doc  string
}

// CV is a constant of the IDL.
type CV struct {
	K    string // int double text ident list map
	I    int64
	D    float64
	S    string
	Enum *Decl
	L    []*CV // list elements, map values
	Keys []*CV
}

type Const struct {
	Name string
	Ty   *Ty
	V    *CV
	Doc  string
}

type Function struct {
	Name   string
	Doc    string
	Oneway bool
	Ret    *Ty // nil: void
	Args   []*Field
	Throws []*Field
}

type Service struct {
	P       *Program
	Name    string
	Doc     string
	Extends *Service
	Fns     []*Function
}

type Program struct {
	Name     string
	NS       string
	Includes []*Program
	Decls    []*Decl
	Consts   []*Const
	Services []*Service
}

type Schema struct{ Programs []*Program }

// Import is the path under which the program's package is imported.
func (p *Program) Import() string {
	if p.NS == "" {
		return p.Name
	}
	return strings.Replace(p.NS, ".", "/", -1)
}

// Package is the name of the program's package, or empty if the declared one cannot be.
func (p *Program) Package() string {
	s := p.Import()
	s = s[strings.LastIndex(s, "/")+1:]
	if !token.IsIdentifier(s) || s == "main" || s == "_" {
		return ""
	}
	return s
}

// ---- names

// GoName is the exported Go name of a Thrift name: its first letter in upper case, and every
// underscore before a letter folded into that letter's upper case.
func GoName(s string) string {
	if s[0] == '_' {
		s = "X" + s
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if i == 0 {
			b.WriteByte(upper(c))
			continue
		}
		if c == '_' && i+1 < len(s) && isAlpha(s[i+1]) {
			i++
			b.WriteByte(upper(s[i]))
			continue
		}
		b.WriteByte(c)
	}
	return b.String()
}

func upper(c byte) byte {
	if 'a' <= c && c <= 'z' {
		c -= 32
	}
	return c
}
func isAlpha(c byte) bool { return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' }

// goWords are the Go words that the generator sets apart in names of fields and arguments.
var goWords = map[string]bool{"chan": true, "defer": true, "fallthrough": true, "func": true, "go": true, "package": true,
	"range": true, "select": true, "type": true, "error": true, "const": true, "map": true, "struct": true, "var": true}

// methods are of every generated struct, and their names set apart as well.
var methods = map[string]bool{"At": true, "CompareTo": true, "Contains": true, "Equals": true, "Iter": true, "Len": true,
	"Read": true, "String": true, "TStruct": true, "ThriftName": true, "Write": true}

// FieldName is the Go name of a struct field.
func FieldName(s string) string {
	if l := strings.ToLower(s); goWords[l] {
		return GoName(l + "_a1")
	}
	if methods[GoName(s)] {
		return GoName(s + "_a1")
	}
	return GoName(s)
}

var stems = []string{"alpha", "beta", "gamma", "delta", "user", "name", "id", "key", "value", "count", "total", "url", "time", "stamp",
	"left", "right", "parent", "child", "node", "edge", "path", "host", "port", "flag", "mode", "state", "level", "score", "rank",
	"color", "shape", "width", "height", "depth", "size", "start", "stop", "limit", "offset", "page", "query", "reply", "token",
	"session", "account", "amount", "price", "rate", "unit", "weight", "label", "title", "body", "text", "data", "image", "link",
	"group", "role", "scope", "owner", "point", "line", "track", "city", "zone", "code", "index", "table", "column", "row", "cell"}

// Words that are names in some IDL and mean something in Go or in the generated code.
var touchy = []string{"type", "func", "range", "package", "select", "go", "chan", "defer", "error", "err", "p", "value", "result", "oprot",
	"iprot", "len", "nil", "seqId", "args0", "process", "handler", "x", "success", "fmt", "math", "thrift", "output", "data", "other", "id",
	"read", "write", "at", "equals", "contains", "compare_to", "thriftName", "TStruct", "iter",
	"fallthrough", "append", "cap", "close", "complex", "copy", "imag", "make", "panic", "real", "recover", "int", "int8", "int16", "int32",
	"int64", "uint", "uint8", "uint32", "uint64", "uintptr", "float32", "float64", "complex128", "rune", "any", "comparable", "iota", "min",
	"max", "clear", "println", "init", "main", "seqid", "mTypeId", "isSet", "fieldId", "fieldName", "fieldTypeId", "found", "args", "client",
	"success1", "err1", "err12", "args12", "skipped", "transport", "protocol", "processor", "key", "ok", "item", "elem", "size", "l", "i", "e", "b", "s",
	"strconv", "os", "net", "flag", "url", "rpc", "context", "parsed", "ttypes", "constants"}

type namer struct{ used map[string]bool }

func (n *namer) take(s string) bool {
	k := strings.ToLower(GoName(s))
	k = strings.Replace(k, "_", "", -1)
	if n.used[k] {
		return false
	}
	n.used[k] = true
	return true
}

// name draws a new name; special ones sometimes when touch is set.
func (n *namer) name(t *pbt.T, touch bool, capital bool) string {
	t.Begin()
	defer t.End()
	for try := 0; ; try++ {
		var s string
		if touch && try < 3 && t.Chance(1, 6) {
			s = touchy[t.N(uint64(len(touchy)))]
			if t.Chance(1, 12) { // a name as the generator makes them, which counts its names
				s = []string{"args", "result", "error", "retval", "err", "iter", "item", "elem", "key", "val", "tmp", "size", "success"}[t.N(13)] + strconv.Itoa(t.Int(0, 150))
			}
		} else {
			s = stems[t.N(uint64(len(stems)))]
			switch t.Pick(4, 2, 2, 1, 1, 1, 1) {
			case 6:
				switch t.N(6) {
				case 5: // means something at the end of a file's name
					s += []string{"_test", "_linux", "_windows", "_arm64", "_js", "_unix"}[t.N(6)]
				case 4:
					s = strings.Repeat("_", t.Int(1, 2))
				case 0:
					s = "_" + s
				case 1:
					s += "_"
				case 2:
					s += "__" + stems[t.N(uint64(len(stems)))]
				case 3:
					s = s[:1]
				}
			case 1:
				s += "_" + stems[t.N(uint64(len(stems)))]
			case 2:
				s += GoName(stems[t.N(uint64(len(stems)))])
			case 3:
				s += strconv.Itoa(t.Int(0, 99))
			case 4:
				s = strings.ToUpper(s)
			case 5:
				s += "_" + strconv.Itoa(t.Int(0, 9))
			}
			if capital && t.Chance(2, 3) {
				s = string(upper(s[0])) + s[1:]
			}
		}
		if try > 20 {
			s += strconv.Itoa(100 + try)
		}
		if n.take(s) {
			return s
		}
	}
}

// ---- random programs

// Words that are the last part of some package names.
var pkgWords = []string{"types", "shared", "common", "thrift", "fmt", "math", "net", "url", "os", "strconv", "flag", "type", "func", "map", "go", "package",
	"client", "data", "value", "result", "args", "string", "error", "byte", "len", "nil", "int32", "Shared", "Types", "my-data", "a-b-c", "x", "p", "err", "iprot",
	"trans", "host", "protocol", "init", "v0", "err1", "ok", "self", "with_underscore", "_hidden", "main2", "new", "other", "processor", "handler"}

// Gen holds what a random program may contain.
type Gen struct {
	Small    bool // keep it small
	Services bool
	Consts   bool
	Includes bool
	NoTouchy bool // no names that mean something in Go
	LowIDs   bool // hardly any high field ids: a generated struct is as big as its highest id
	Prefix   string

	ManyFns, ManyConsts bool
}

type builder struct {
	t   *pbt.T
	o   Gen
	p   *Program
	ns  *namer
	fns *namer // function names: one per package, as their argument structs are named after them
	all []*Decl
}

func (o Gen) Schema(t *pbt.T) *Schema {
	s := &Schema{}
	n := 1
	if o.Includes && t.Chance(1, 3) {
		n += t.Int(1, 2)
	}
	for i := 0; i < n; i++ {
		b := &builder{t: t, o: o, ns: &namer{used: map[string]bool{}}, fns: &namer{used: map[string]bool{}}}
		p := &Program{Name: fmt.Sprintf("%sprog%d", o.Prefix, i)}
		switch t.Pick(3, 1, 1) {
		case 1:
			p.NS = fmt.Sprintf("%sspace%d", o.Prefix, i)
		case 2:
			p.NS = fmt.Sprintf("%sspace.deep%d.pkg%d", o.Prefix, t.N(3), i)
		}
		if o.Includes && t.Chance(1, 3) {
			// names that other packages have, that the generated code uses itself or that are none
			last := pkgWords[t.N(uint64(len(pkgWords)))]
			if t.Chance(1, 3) {
				last = pkgWords[t.N(3)]
			}
			if t.Chance(1, 4) {
				p.Name, p.NS = fmt.Sprintf("%s%d%s", o.Prefix, i, last), ""
				if o.Prefix == "" {
					p.Name = "a" + p.Name
				}
			} else {
				p.NS = fmt.Sprintf("%sn%d.%s", o.Prefix, i, last)
			}
		}
		b.p = p
		var svcs []*Service
		for _, q := range s.Programs {
			if t.Chance(3, 4) {
				p.Includes = append(p.Includes, q)
				b.all = append(b.all, q.Decls...)
				svcs = append(svcs, q.Services...)
			}
			for _, v := range q.Services { // those that may be extended, also of their includes
				for _, f := range v.Fns {
					b.fns.take(f.Name)
				}
			}
		}
		b.decls(svcs)
		s.Programs = append(s.Programs, p)
	}
	return s
}

func (b *builder) add(d *Decl) {
	d.P = b.p
	b.p.Decls = append(b.p.Decls, d)
	b.all = append(b.all, d)
}

func (b *builder) doc() string {
	t := b.t
	if !t.Chance(1, 6) {
		return ""
	}
	switch t.Pick(3, 1, 1) {
	case 1:
		return "First line.\nSecond line, with \"quotes\" and \\ and // and {\n"
	case 2:
		return "\n"
	}
	return "Some words.\n"
}

func (b *builder) decls(svcs []*Service) {
	t := b.t
	max := 4
	if b.o.Small {
		max = 2
	}
	// names such as Foo must not meet NewFoo, IFoo, FooClient and the like: the stems do not
	// end that way, and take ignores case
	if b.o.ManyConsts {
		t.Repeat(max, 2, func(int) { b.enum() })
	}
	t.Repeat(max, 1, func(int) { b.enum() })
	t.Repeat(max, 1, func(int) { b.typedef() })
	t.Repeat(max+2, 3, func(int) {
		if t.Chance(1, 4) {
			b.typedef2()
		}
		b.structure("struct")
	})
	if b.o.Services {
		t.Repeat(max, 1, func(int) { b.structure("exception") })
	}
	if b.o.Consts {
		n := max + 2
		if b.o.ManyConsts {
			n *= 3
		}
		t.Repeat(n, n/2, func(int) { b.constant() })
	}
	if b.o.Services {
		own := append([]*Service(nil), svcs...)
		n, mean := 3, 1
		if b.o.ManyFns {
			n, mean = 4, 3
		}
		t.Repeat(n, mean, func(int) {
			s := &Service{P: b.p, Name: b.ns.name(t, false, true), Doc: b.doc()}
			if len(own) > 0 && t.Chance(1, 3) {
				s.Extends = own[t.N(uint64(len(own)))]
			}
			b.functions(s)
			b.p.Services = append(b.p.Services, s)
			own = append(own, s)
		})
	}
}

func (b *builder) enum() {
	t := b.t
	d := &Decl{Kind: "enum", Name: b.ns.name(t, false, true), Doc: b.doc()}
	ns := &namer{used: map[string]bool{}}
	next := int64(0)
	n := t.Int(1, 6)
	for i := 0; i < n; i++ {
		v := EnumValue{Name: ns.name(t, !b.o.NoTouchy, false)}
		switch t.Pick(4, 2, 2, 1, 1) {
		case 0:
			v.V = next
		case 1:
			v.Given, v.V = true, next
		case 2:
			v.Given, v.V = true, next+int64(t.Int(1, 9))
		case 3:
			v.Given, v.V = true, int64(int32(t.I64()))
		case 4:
			v.Given, v.V = true, int64(t.Int(-5, 5))
		}
		if v.V > 1<<31-1 {
			v.V, v.Given = 0, true
		}
		next = v.V + 1
		d.Values = append(d.Values, v)
	}
	b.add(d)
}

func (b *builder) typedef() {
	b.add(&Decl{Kind: "typedef", Name: b.ns.name(b.t, false, true), Of: b.ty(2), Doc: b.doc()})
}

// typedef2 prefers the newest struct.
func (b *builder) typedef2() {
	for i := len(b.all) - 1; i >= 0; i-- {
		if k := b.all[i].Kind; k == "struct" || k == "exception" {
			b.add(&Decl{Kind: "typedef", Name: b.ns.name(b.t, false, true), Of: &Ty{K: "named", Ref: b.all[i]}})
			return
		}
	}
	b.typedef()
}

var bases = []string{"i32", "string", "bool", "byte", "i16", "i64", "double", "binary"}

func (b *builder) ty(depth int) *Ty {
	t := b.t
	if len(b.all) > 0 && t.Chance(1, 3) {
		// exceptions are mostly for throws
		for try := 0; try < 4; try++ {
			d := b.all[t.N(uint64(len(b.all)))]
			if ((&Ty{K: "named", Ref: d}).Is() != "exception" || t.Chance(1, 4)) && (depth > 1 || !nested(&Ty{K: "named", Ref: d})) {
				return &Ty{K: "named", Ref: d}
			}
		}
	}
	if depth <= 0 || t.Chance(3, 5) {
		return &Ty{K: bases[t.N(uint64(len(bases)))]}
	}
	switch t.Pick(2, 1, 2) {
	case 0:
		return &Ty{K: "list", El: b.ty(depth - 1)}
	case 1:
		return &Ty{K: "set", El: b.ty(depth - 1)}
	}
	return &Ty{K: "map", Key: b.ty(depth - 2), El: b.ty(depth - 1)}
}

func nested(t *Ty) bool {
	switch t.Is() {
	case "struct", "exception", "list", "set", "map":
		return true
	}
	return false
}

func (b *builder) fields(max int, touch, negative bool) []*Field {
	t := b.t
	ns := &namer{used: map[string]bool{}}
	// a field and a method of a struct cannot have one name
	for _, m := range []string{"Read", "Write", "String", "CompareTo", "TStruct", "ThriftName", "TStructName", "TStructFields", "AttributeByFieldId"} {
		ns.take(m)
	}
	ids := map[int]bool{}
	next := 1
	var fs []*Field
	auto := 0 // fields that are given no ids have -1, -2, ...
	if negative {
		next = -t.Int(1, 20)
		if t.Bool() {
			auto = -1
		}
	}
	t.Repeat(max, 4, func(i int) {
		name := ""
		if touch && len(b.p.Includes) > 0 && t.Chance(1, 10) { // as a package is called
			if n := b.p.Includes[t.N(uint64(len(b.p.Includes)))].Package(); n != "" && ns.take(n) {
				name = n
			}
		}
		if name == "" {
			name = ns.name(t, touch && !b.o.NoTouchy, false)
		}
		f := &Field{Name: name, Ty: b.ty(3), Req: Default, Doc: b.doc()}
		switch t.Pick(8, 2, 1, 1) {
		case 1:
			next += t.Int(1, 20)
		case 2:
			next = t.Int(1, 400)
		case 3:
			if !b.o.LowIDs || t.Chance(1, 12) {
				next = int(uint16(t.I64()) & 0x7fff)
			}
		}
		for ids[next] || next == 0 || next > 32767 || !negative && next < 0 {
			next++
			if next > 32767 {
				next = 1
			}
		}
		if auto < 0 && !ids[auto] && !t.Chance(1, 5) {
			f.ID = auto
			ids[auto] = true
			auto--
		} else {
			f.ID = next
			ids[next] = true
			next++
		}
		switch t.Pick(3, 2, 1) {
		case 1:
			f.Req = Optional
		case 2:
			f.Req = Required
		}
		if t.Chance(1, 4) {
			f.Def = b.cv(f.Ty, 2)
		}
		fs = append(fs, f)
	})
	return fs
}

func (b *builder) structure(kind string) {
	max := 12
	if b.o.Small {
		max = 5
	}
	d := &Decl{Kind: kind, Name: b.ns.name(b.t, false, true), Doc: b.doc()}
	d.Fields = b.fields(max, true, b.t.Chance(1, 9))
	b.add(d)
}

func (b *builder) constant() {
	t := b.t
	ty := b.ty(3)
	name := b.ns.name(t, false, false)
	// a constant is named after its type, as the values of an enum are
	for ty.K == "named" && ty.Ref.Kind == "enum" && ty.Ref.has(name) {
		name = b.ns.name(t, false, false)
	}
	b.p.Consts = append(b.p.Consts, &Const{Name: name, Ty: ty, V: b.cv(ty, 3), Doc: b.doc()})
}

// has tells whether an enum has a value of that Go name.
func (d *Decl) has(name string) bool {
	for _, v := range d.Values {
		if v.Name == name || v.Name == GoName(name) {
			return true
		}
	}
	return false
}

func (b *builder) functions(s *Service) {
	t := b.t
	n, mean := 4, 2
	if b.o.ManyFns {
		n, mean = 6, 4
	}
	t.Repeat(n, mean, func(int) {
		f := &Function{Name: b.fns.name(t, false, false), Doc: b.doc()}
		args := b.fields(4, true, t.Chance(1, 9))
		for _, a := range args {
			a.Req = Default
		}
		f.Args = args
		if t.Chance(1, 5) {
			f.Oneway = true
		} else {
			if t.Chance(3, 4) {
				f.Ret = b.ty(3)
			}
			var excs []*Decl
			for _, d := range b.all {
				if (&Ty{K: "named", Ref: d}).Is() == "exception" {
					excs = append(excs, d)
				}
			}
			if len(excs) > 0 {
				ns := &namer{used: map[string]bool{"success": true}}
				for _, a := range args {
					ns.take(a.Name)
				}
				id, step := 1, 1
				if t.Chance(1, 9) {
					id, step = -1, -1
				}
				t.Repeat(3, 1, func(int) {
					id += step * t.Pick(5, 1, 1)
					f.Throws = append(f.Throws, &Field{ID: id, Req: Default, Name: ns.name(t, !b.o.NoTouchy, false),
						Ty: &Ty{K: "named", Ref: excs[t.N(uint64(len(excs)))]}})
					id += step
				})
			}
		}
		s.Fns = append(s.Fns, f)
	})
}

// cv draws a constant of a type.
func (b *builder) cv(ty *Ty, depth int) *CV {
	t := b.t
	ty = ty.True()
	switch ty.Is() {
	case "bool":
		if t.Chance(1, 6) { // every number above 0 is true
			return &CV{K: "int", I: int64(t.Int(2, 300))}
		}
		return &CV{K: "int", I: int64(t.N(2))}
	case "byte":
		return &CV{K: "int", I: int64(int8(t.I64()))}
	case "i16":
		return &CV{K: "int", I: int64(int16(t.I64()))}
	case "i32":
		return &CV{K: "int", I: int64(int32(t.I64()))}
	case "i64":
		return &CV{K: "int", I: t.I64()}
	case "double":
		switch t.Pick(2, 2, 1, 1) {
		case 0:
			if t.Chance(1, 3) {
				return &CV{K: "int", I: t.I64()}
			}
			return &CV{K: "int", I: int64(int32(t.I64()))}
		case 1:
			return &CV{K: "double", D: float64(t.Int(-1000, 1000)) / 8}
		case 2:
			return &CV{K: "double", D: float64(t.Int(-1000000, 1000000)) / 1e4}
		}
		d := t.F64()
		if d-d != 0 || d == 0 { // no constant in the IDL
			d = 3.141592653589793
		}
		return &CV{K: "double", D: d}
	case "string", "binary":
		if t.Chance(1, 5) {
			return &CV{K: "text", S: ""}
		}
		return &CV{K: "text", S: constText(t)}
	case "enum":
		d := ty.Ref
		v := d.Values[t.N(uint64(len(d.Values)))]
		if t.Chance(1, 4) {
			return &CV{K: "int", I: v.V}
		}
		return &CV{K: "ident", S: v.Name, Enum: d, I: v.V}
	case "list", "set":
		c := &CV{K: "list"}
		seen := map[string]bool{}
		t.Repeat(4, 1, func(int) {
			if depth <= 0 {
				return
			}
			e := b.cv(ty.El, depth-1)
			if ty.K == "list" || fresh(seen, ty.El, Eval(ty.El, e)) {
				c.L = append(c.L, e)
			}
		})
		return c
	case "map":
		c := &CV{K: "map"}
		seen := map[string]bool{}
		t.Repeat(3, 1, func(int) {
			if depth <= 0 {
				return
			}
			k, e := b.cv(ty.Key, depth-1), b.cv(ty.El, depth-1)
			if fresh(seen, ty.Key, Eval(ty.Key, k)) {
				c.Keys = append(c.Keys, k)
				c.L = append(c.L, e)
			}
		})
		return c
	}
	c := &CV{K: "map"}
	for _, f := range ty.Ref.Fields {
		if t.Chance(1, 2) && depth > 0 {
			c.Keys = append(c.Keys, &CV{K: "text", S: f.Name})
			c.L = append(c.L, b.cv(f.Ty, depth-1))
		}
	}
	return c
}

func constText(t *pbt.T) string {
	parts := []string{"a", "Word", " ", "é", "日本", "\n", "\t", "\\", "\"", "%s", "%", "'", "`", "0", "😀", "\r", "//", "/*", "{}", "\\n", "\\x"}
	var sb strings.Builder
	t.Repeat(8, 2, func(int) { sb.WriteString(parts[t.N(uint64(len(parts)))]) })
	return sb.String()
}

// ---- text

func (t *Ty) IDL() string {
	switch t.K {
	case "list", "set":
		return t.K + "<" + t.El.IDL() + ">"
	case "map":
		return "map<" + t.Key.IDL() + ", " + t.El.IDL() + ">"
	case "named":
		return t.Ref.Name
	}
	return t.K
}

func (c *CV) IDL() string {
	switch c.K {
	case "int":
		return strconv.FormatInt(c.I, 10)
	case "double":
		return strconv.FormatFloat(c.D, 'g', -1, 64)
	case "text":
		return strconv.Quote(c.S)
	case "ident":
		return c.Enum.Name + "." + c.S
	}
	var s []string
	for i, e := range c.L {
		if c.K == "map" {
			s = append(s, c.Keys[i].IDL()+": "+e.IDL())
		} else {
			s = append(s, e.IDL())
		}
	}
	if c.K == "map" {
		return "{" + strings.Join(s, ", ") + "}"
	}
	return "[" + strings.Join(s, ", ") + "]"
}

func fieldIDL(f *Field) string {
	s := fmt.Sprintf("%d: %s%s %s", f.ID, []string{"required ", "optional ", ""}[f.Req], f.Ty.IDL(), f.Name)
	if f.Def != nil {
		s += " = " + f.Def.IDL()
	}
	return s
}

func (d *Decl) IDL() string {
	switch d.Kind {
	case "enum":
		var s []string
		for _, v := range d.Values {
			if v.Given {
				s = append(s, fmt.Sprintf("%s = %d", v.Name, v.V))
			} else {
				s = append(s, v.Name)
			}
		}
		return "enum " + d.Name + " { " + strings.Join(s, ", ") + " }"
	case "typedef":
		return "typedef " + d.Of.IDL() + " " + d.Name
	}
	var s []string
	for _, f := range d.Fields {
		s = append(s, fieldIDL(f))
	}
	return d.Kind + " " + d.Name + " { " + strings.Join(s, ", ") + " }"
}

func (f *Function) IDL() string {
	s := ""
	if f.Oneway {
		s = "oneway "
	}
	if f.Ret == nil {
		s += "void"
	} else {
		s += f.Ret.IDL()
	}
	var a, x []string
	for _, g := range f.Args {
		a = append(a, fieldIDL(g))
	}
	for _, g := range f.Throws {
		x = append(x, fieldIDL(g))
	}
	s += " " + f.Name + "(" + strings.Join(a, ", ") + ")"
	if len(x) > 0 {
		s += " throws (" + strings.Join(x, ", ") + ")"
	}
	return s
}

func (v *Service) IDL() string {
	x := ""
	if v.Extends != nil {
		x = " extends " + v.Extends.Name
	}
	var f []string
	for _, g := range v.Fns {
		f = append(f, g.IDL())
	}
	return "service " + v.Name + x + " { " + strings.Join(f, "; ") + " }"
}

// IDL is the schema as Thrift files, one declaration a line.
func (s *Schema) IDL() []string {
	var o []string
	for _, p := range s.Programs {
		o = append(o, "// "+p.Name+".thrift")
		if p.NS != "" {
			o = append(o, "namespace go "+p.NS)
		}
		for _, q := range p.Includes {
			o = append(o, "include \""+q.Name+".thrift\"")
		}
		for _, d := range p.Decls {
			o = append(o, d.IDL())
		}
		for _, c := range p.Consts {
			o = append(o, "const "+c.Ty.IDL()+" "+c.Name+" = "+c.V.IDL())
		}
		for _, v := range p.Services {
			o = append(o, v.IDL())
		}
	}
	return o
}

// ---- the line format of gen/main.cc

func enc(s string) string { return fmt.Sprintf("h%x", s) }
func encDoc(s string) string {
	if s == "" {
		return "0"
	}
	return "1 " + enc(s)
}
func (t *Ty) enc() string {
	switch t.K {
	case "list", "set":
		return t.K + " " + t.El.enc()
	case "map":
		return "map " + t.Key.enc() + " " + t.El.enc()
	case "named":
		return "named " + t.Ref.P.Name + " " + t.Ref.Name
	}
	return t.K
}
func (c *CV) enc() string {
	switch c.K {
	case "int":
		return fmt.Sprintf("int %d", c.I)
	case "double":
		return "double " + strconv.FormatFloat(c.D, 'g', -1, 64)
	case "text":
		return "text " + enc(c.S)
	case "ident":
		return "ident " + c.Enum.P.Name + " " + c.Enum.Name + " " + c.S
	}
	s := fmt.Sprintf("%s %d", c.K, len(c.L))
	for i, e := range c.L {
		if c.K == "map" {
			s += " " + c.Keys[i].enc()
		}
		s += " " + e.enc()
	}
	return s
}
func encFields(fs []*Field) string {
	s := fmt.Sprint(len(fs))
	for _, f := range fs {
		s += fmt.Sprintf("\n %d %d %s %s", f.ID, f.Req, f.Name, f.Ty.enc())
		if f.Def != nil {
			s += " 1 " + f.Def.enc()
		} else {
			s += " 0"
		}
		s += " " + encDoc(f.Doc)
	}
	return s
}

func (s *Schema) Encode() string {
	var sb strings.Builder
	w := func(f string, a ...interface{}) { fmt.Fprintf(&sb, f+"\n", a...) }
	for _, p := range s.Programs {
		ns := p.NS
		if ns == "" {
			ns = "-"
		}
		w("program %s %s", p.Name, ns)
		for _, q := range p.Includes {
			w("include %s", q.Name)
		}
		for _, d := range p.Decls {
			switch d.Kind {
			case "enum":
				x := ""
				for _, v := range d.Values {
					g := 0
					if v.Given {
						g = 1
					}
					x += fmt.Sprintf(" %s %d %d", v.Name, g, v.V)
				}
				w("enum %s %d%s %s", d.Name, len(d.Values), x, encDoc(d.Doc))
			case "typedef":
				w("typedef %s %s %s", d.Name, d.Of.enc(), encDoc(d.Doc))
			default:
				w("%s %s %s %s", d.Kind, d.Name, encFields(d.Fields), encDoc(d.Doc))
			}
		}
		for _, c := range p.Consts {
			w("const %s %s %s %s", c.Name, c.Ty.enc(), c.V.enc(), encDoc(c.Doc))
		}
		for _, v := range p.Services {
			x := "-"
			if v.Extends != nil {
				x = v.Extends.P.Name + " " + v.Extends.Name
			}
			s := ""
			for _, f := range v.Fns {
				ow, ret := 0, "void"
				if f.Oneway {
					ow = 1
				}
				if f.Ret != nil {
					ret = f.Ret.enc()
				}
				s += fmt.Sprintf("\n %s %d %s %s %s %s", f.Name, ow, ret, encFields(f.Args), encFields(f.Throws), encDoc(f.Doc))
			}
			w("service %s %s %d%s %s", v.Name, x, len(v.Fns), s, encDoc(v.Doc))
		}
	}
	return sb.String()
}
