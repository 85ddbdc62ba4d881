package genchk

import (
	"genreg"
	"os"
	"pbt"
	"reflect"
	"strings"
	"thrift"
	"vm"
)

// Recorded findings: each probe says what it sees, "" when the code behaves.

func probeSchema(name string, build func(*Program)) *Schema {
	p := &Program{Name: name}
	build(p)
	return &Schema{Programs: []*Program{p}}
}

func written(s *Schema, see func(dir string) string) string {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "probe")
	if err != nil {
		panic("check error: " + err.Error())
	}
	defer os.RemoveAll(dir)
	if err := Run(s, dir); err != nil {
		return err.Error()
	}
	return see(dir)
}

// G01Probes are the findings about what compiles.
var G01Probes = []pbt.Probe{
	{Key: "command-imports", Fn: func() string {
		s := probeSchema("probea", func(p *Program) {
			p.Services = append(p.Services, &Service{P: p, Name: "Ping", Fns: []*Function{{Name: "ping"}}})
		})
		return written(s, func(dir string) string {
			StrictCommands = true
			defer func() { StrictCommands = false }()
			if c := Check(s, dir, true); c.Err != nil {
				return c.Err.Error()
			} else if c.RemErr != nil {
				return c.RemErr.Error()
			}
			return ""
		})
	}},
	{Key: "same-function-twice", Fn: func() string {
		s := probeSchema("probeb", func(p *Program) {
			for _, n := range []string{"Ping", "Pong"} {
				p.Services = append(p.Services, &Service{P: p, Name: n, Fns: []*Function{{Name: "hit", Args: []*Field{{ID: 1, Req: Default, Name: "ball", Ty: &Ty{K: "i32"}}}}}})
			}
		})
		return written(s, func(dir string) string {
			if c := Check(s, dir, false); c.Err != nil {
				return c.Err.Error()
			}
			return ""
		})
	}},
}

// structWith finds a struct of the run that has an i32 field.
func structWith() (d *Decl, f *Field) {
	for i, s := range Set() {
		if genreg.Broken[i] != "" {
			continue
		}
		for _, d := range structs(s) {
			for _, f := range d.Fields {
				if f.Ty.K == "i32" && d.field(-1) == nil && genreg.Structs[d.key()] != nil {
					return d, f
				}
			}
		}
	}
	return nil, nil
}

// G02Probes are the findings about structs.
var G02Probes = []pbt.Probe{
	{Key: "field-of-another-type", Fn: func() string {
		d, f := structWith()
		if d == nil {
			return "no struct of the run has an i32"
		}
		tap := vm.NewTap(nil)
		if e := vm.Write(thrift.NewTBinaryProtocolTransport(tap), &vm.Val{T: vm.STRUCT, Name: d.Name, Fields: []vm.Fld{{ID: int16(f.ID), Name: f.Name, V: &vm.Val{T: vm.STRING, S: "text"}}}}); e != nil {
			panic("check error: " + e.Error())
		}
		x := Construct(d)
		if e := x.(reader).Read(thrift.NewTBinaryProtocolTransport(vm.NewTap(tap.W))); e != nil {
			return "a string where an i32 field is declared: " + e.Error()
		}
		if v := FromGo(f.Ty, goField(x, f)); v.I == 4 {
			return "a string where an i32 field is declared is read as " + v.String()
		}
		return ""
	}},
	{Key: "simplejson-unknown-field", Fn: func() string {
		d, f := structWith()
		if d == nil {
			return "no struct of the run has an i32"
		}
		x := Construct(d)
		e := x.(reader).Read(thrift.NewTSimpleJSONProtocol(vm.NewTap([]byte(`{"zz_other":1,"` + f.Name + `":77}`))))
		if e != nil {
			return "a field the struct does not know: " + e.Error()
		}
		if v := FromGo(f.Ty, goField(x, f)); v.I != 77 {
			return "what is behind a field that the struct does not know is not read"
		}
		return ""
	}},
}

// serviceWith finds a service of the run with a function of no arguments that is answered.
func serviceWith() (svc *Service, f *Function) {
	for i, s := range Set() {
		if genreg.Broken[i] != "" {
			continue
		}
		for _, p := range s.Programs {
			for _, v := range p.Services {
				for _, f := range v.Fns {
					if len(f.Args) == 0 && !f.Oneway && genreg.Services[p.Import()+"."+v.Name] != nil {
						return v, f
					}
				}
			}
		}
	}
	return nil, nil
}

// G03Probes are the findings about services.
var G03Probes = []pbt.Probe{
	{Key: "client-of-protocols", Fn: func() string {
		svc, f := serviceWith()
		if svc == nil {
			return "no service of the run fits"
		}
		up := &wire{}
		e := &post{in: &wire{}, out: up, fail: -1}
		c := reflect.ValueOf(genreg.Services[svc.P.Import()+"."+svc.Name].NewClientProtocol(e, vm.Binary.New(e), vm.Binary.New(e)))
		var err error
		if m := pbt.Guard(func() { err = errorOf(c.MethodByName("Send" + GoName(f.Name)).Call(nil)) }); m != "" {
			return "a client made of protocols sends nothing: " + strings.SplitN(m, " at ", 2)[0]
		}
		if err != nil || len(up.b) == 0 {
			return "a client made of protocols sends nothing"
		}
		return ""
	}},
	{Key: "unsent-request", Fn: func() string {
		svc, f := serviceWith()
		if svc == nil {
			return "no service of the run fits"
		}
		e := &post{in: &wire{}, out: &wire{}, fail: -1}
		ft := thrift.NewTFramedTransport(e)
		c := reflect.ValueOf(genreg.Services[svc.P.Import()+"."+svc.Name].NewClient(ft, protocols(vm.Binary.New)))
		e.fail = 0
		if err := errorOf(c.MethodByName("Send" + GoName(f.Name)).Call(nil)); err == nil && e.hit {
			return "a request that cannot be flushed is reported as sent"
		}
		return ""
	}},
}
